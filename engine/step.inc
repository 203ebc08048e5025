	// included inside struct Engine: instruction semantics
	bool decide( State& s, E c ) { // forks; the other outcome re-executes the current instruction
		std::unique_ptr<State> o; int r = branch( s, c, o );
		if ( r == 2 ) { work.push_back( std::move( o ) ); return true; }
		return r == 1;
	}
	E rconv( E a, unsigned w ) { // real mode: change of the storage width
		if ( a->w == w ) return a;
		if ( a->k == CONST ) return X.cr( w, X.cd( a ) );
		if ( a->k == RADD && a->b->k == CONST && X.cd( a->b ) == 0 && a->a->w == w ) return a->a;
		return X.raw( RADD, w, a, X.cr( w, 0 ), 0, 0, true );
	}
	// false: on this path the operation is not defined, its result is any value
	bool defined( State& s, E c, const char* what ) {
		if ( c->k == CONST ) { if ( !c->val && O.div0 ) throw TermPath(); return c->val; }
		if ( s.pcs.count( c ) ) return true;
		if ( O.div0 ) { assumptions.insert( string( "real mode: paths with " ) + what + " are excluded" ); assume( s, c ); return true; }
		const Solver::Entry* en = nullptr; E n = X.Not( c ); Res r = s.pcs.count( n ) ? SAT : SV->check( s.pc, n, &en );
		if ( r == SAT ) { assumptions.insert( string( "real mode: the result of " ) + what + " is any value" ); return decide( s, c ); }
		if ( r == UNKNOWN ) assumptions.insert( "real mode: no answer whether there is " + string( what ) + " in " + where( s ) );
		addC( s, c ); return true;
	}
	E rdivE( State& s, E a, E b ) {
		E nz = b->k == CONST ? X.C( 1, X.cd( b ) != 0 ) : X.Not( X.REq( b, X.cr( b->w, 0 ) ) );
		if ( !defined( s, nz, "division by zero" ) ) return rconv( rf( s, "div0", r64( a ), r64( b ) ), b->w );
		return X.RBin( RDIV, a, b );
	}
	E realMod( State& s, E a, E b ) {
		E nz = b->k == CONST ? X.C( 1, X.cd( b ) != 0 ) : X.Not( X.REq( b, X.cr( b->w, 0 ) ) );
		if ( !defined( s, nz, "division by zero" ) ) return rconv( rf( s, "mod0", r64( a ), r64( b ) ), b->w );
		E q = X.RBin( RDIV, a, b ); return X.RBin( RSUB, a, X.RBin( RMUL, X.cr( a->w, realInt( s, q, 1 ) ), b ) );
	}
	void assume( State& s, E c ) {
		if ( c->k == CONST ) { if ( !c->val ) { ++infeasible; throw TermPath(); } return; }
		const Solver::Entry* en; Res r = may( s, c, &en );
		if ( r != SAT ) { ++infeasible; throw TermPath(); }
		if ( en ) patch( s, en );
		addC( s, c );
	}
	E fop( State& s, unsigned op, E a, E b ) {
		if ( O.real ) {
			switch ( op ) {
			case Instruction::FAdd: return X.RBin( RADD, a, b ); case Instruction::FSub: return X.RBin( RSUB, a, b );
			case Instruction::FMul: return X.RBin( RMUL, a, b ); case Instruction::FDiv: return rdivE( s, a, b );
			default: if ( a->k == CONST && b->k == CONST ) return X.FBin( FREM, a, b ); return realMod( s, a, b );
			}
		}
		switch ( op ) {
		case Instruction::FAdd: return X.FBin( FADD, a, b ); case Instruction::FSub: return X.FBin( FSUB, a, b );
		case Instruction::FMul: return X.FBin( FMUL, a, b ); case Instruction::FDiv: return X.FBin( FDIV, a, b );
		default: return X.FBin( FREM, a, b );
		}
	}
	E fcmp( CmpInst::Predicate p, E a, E b ) {
		if ( O.real ) {
			switch ( p ) {
			case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return X.REq( a, b );
			case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return X.Not( X.REq( a, b ) );
			case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return X.RLt( a, b );
			case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return X.RLe( a, b );
			case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return X.RLt( b, a );
			case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return X.RLe( b, a );
			case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return X.T();
			default: return X.F();
			}
		}
		auto uno = [&] { return X.Or( X.FNan( a ), X.FNan( b ) ); };
		switch ( p ) {
		case CmpInst::FCMP_OEQ: return X.FBin( FEQ, a, b );
		case CmpInst::FCMP_UNE: return X.Not( X.FBin( FEQ, a, b ) );
		case CmpInst::FCMP_ONE: return X.And( X.Not( uno() ), X.Not( X.FBin( FEQ, a, b ) ) );
		case CmpInst::FCMP_UEQ: return X.Or( uno(), X.FBin( FEQ, a, b ) );
		case CmpInst::FCMP_OLT: return X.FBin( FLT, a, b ); case CmpInst::FCMP_OLE: return X.FBin( FLE, a, b );
		case CmpInst::FCMP_OGT: return X.FBin( FLT, b, a ); case CmpInst::FCMP_OGE: return X.FBin( FLE, b, a );
		case CmpInst::FCMP_ULT: return X.Not( X.FBin( FLE, b, a ) ); case CmpInst::FCMP_ULE: return X.Not( X.FBin( FLT, b, a ) );
		case CmpInst::FCMP_UGT: return X.Not( X.FBin( FLE, a, b ) ); case CmpInst::FCMP_UGE: return X.Not( X.FBin( FLT, a, b ) );
		case CmpInst::FCMP_ORD: return X.Not( uno() ); case CmpInst::FCMP_UNO: return uno();
		case CmpInst::FCMP_TRUE: return X.T(); default: return X.F();
		}
	}
	E castE( State& s, unsigned op, E a, Type* to ) {
		unsigned w = bits( to );
		switch ( op ) {
		case Instruction::Trunc: return X.Extract( a, 0, w );
		case Instruction::ZExt: return X.ZExt( a, w );
		case Instruction::SExt: return X.SExt( a, w );
		case Instruction::PtrToInt: case Instruction::IntToPtr: return w < a->w ? X.Extract( a, 0, w ) : X.ZExt( a, w );
		case Instruction::FPToSI: return O.real ? ( a->k == CONST ? X.RToI( a, w ) : X.C( w, (u128)(i128)realInt( s, a, 1 ) ) ) : X.FToI( a, w, true );
		case Instruction::FPToUI: return O.real ? ( a->k == CONST ? X.RToI( a, w ) : X.C( w, (u128)(i128)realInt( s, a, 1 ) ) ) : X.FToI( a, w, false );
		case Instruction::SIToFP: return O.real ? X.IToR( X.C( a->w, concretize( s, a ) ), w, true ) : X.IToF( a, w, true );
		case Instruction::UIToFP: return O.real ? X.IToR( X.C( a->w, concretize( s, a ) ), w, false ) : X.IToF( a, w, false );
		case Instruction::FPExt: case Instruction::FPTrunc: return O.real ? rconv( a, w ) : X.FToF( a, w );
		default: throw Unsupported( "cast" );
		}
	}
	E fneg( E a ) { return O.real ? X.RNeg( a ) : X.FNeg( a ); }
	E fabsE( E a ) { if ( !O.real ) return X.FAbs( a ); if ( a->k == CONST ) return X.FAbs( a ); return X.Ite( X.RLt( a, X.cr( a->w, 0 ) ), X.RNeg( a ), a ); }
	E ibin( State& s, unsigned op, E a, E b ) {
		switch ( op ) {
		case Instruction::Add: return X.Add( a, b ); case Instruction::Sub: return X.Sub( a, b ); case Instruction::Mul: return X.Mul( a, b );
		case Instruction::And: return X.And( a, b ); case Instruction::Or: return X.Or( a, b ); case Instruction::Xor: return X.Xor( a, b );
		case Instruction::Shl: return X.Shl( a, b ); case Instruction::LShr: return X.LShr( a, b ); case Instruction::AShr: return X.AShr( a, b );
		default: {
			E z = X.Eq( b, X.C( b->w, 0 ) );
			if ( z->k == CONST ? z->val : decideErr( s, z ) ) error( s, "div0", "integer division by zero" );
			if ( op == Instruction::UDiv ) return X.UDiv( a, b ); if ( op == Instruction::URem ) return X.URem( a, b );
			if ( op == Instruction::SDiv ) return X.SDiv( a, b ); return X.SRem( a, b );
		}
		}
	}
	// an error condition: report it if feasible (with its own model), continue on the good side; returns true only if the bad side is certain
	bool decideErr( State& s, E bad ) {
		std::unique_ptr<State> o; int r = branch( s, X.Not( bad ), o );
		if ( r == 2 ) { work.push_back( std::move( o ) ); return false; } // the forked state re-executes and reports
		return r == 0;
	}
	Val map1( const Val& a, const std::function<E( E )>& f ) { if ( !a.agg ) return f( a.e ); Val v; v.agg = std::make_shared<vector<Val>>(); for ( auto& x : *a.agg ) v.agg->push_back( map1( x, f ) ); return v; }
	Val map2( const Val& a, const Val& b, const std::function<E( E, E )>& f ) { if ( !a.agg ) return f( a.e, b.e ); Val v; v.agg = std::make_shared<vector<Val>>(); for ( size_t i = 0; i < a.agg->size(); ++i ) v.agg->push_back( map2( ( *a.agg )[ i ], ( *b.agg )[ i ], f ) ); return v; }
	Val selectV( E c, const Val& a, const Val& b ) { if ( !a.agg ) return X.Ite( c, a.e, b.e ); Val v; v.agg = std::make_shared<vector<Val>>(); for ( size_t i = 0; i < a.agg->size(); ++i ) v.agg->push_back( selectV( c, ( *a.agg )[ i ], ( *b.agg )[ i ] ) ); return v; }

	void step( State& s ) {
		Frame& f = s.st.back();
		DI& d = f.f->bbs[ f.bb ].ins[ f.pc ];
		++s.insts; ++insts; d.hit = true;
		auto set = [&]( Val v ) { Frame& g = s.st.back(); g.r[ d.dst ] = std::move( v ); ++g.pc; };
		auto op = [&]( int i ) -> const Val& { return get( s.st.back(), d.ops[ i ] ); };
		switch ( d.op ) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
		case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
			if ( !op( 0 ).agg ) { set( ibin( s, d.op, op( 0 ).e, op( 1 ).e ) ); break; }
			set( map2( op( 0 ), op( 1 ), [&]( E a, E b ) { return ibin( s, d.op, a, b ); } ) ); break;
		}
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
			set( map2( op( 0 ), op( 1 ), [&]( E a, E b ) { return fop( s, d.op, a, b ); } ) ); break;
		case Instruction::FNeg: set( map1( op( 0 ), [&]( E a ) { return fneg( a ); } ) ); break;
		case Instruction::ICmp: { auto p = cast<CmpInst>( d.I )->getPredicate(); set( map2( op( 0 ), op( 1 ), [&]( E a, E b ) { return icmp( p, a, b ); } ) ); break; }
		case Instruction::FCmp: { auto p = cast<CmpInst>( d.I )->getPredicate(); set( map2( op( 0 ), op( 1 ), [&]( E a, E b ) { return fcmp( p, a, b ); } ) ); break; }
		case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
		case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
			Type* et = d.ty->isVectorTy() ? cast<VectorType>( d.ty )->getElementType() : d.ty;
			set( map1( op( 0 ), [&]( E a ) { return castE( s, d.op, a, et ); } ) ); break;
		}
		case Instruction::BitCast: {
			if ( d.ty->isVectorTy() || op( 0 ).agg ) set( unflat( flat( op( 0 ) ), d.ty ) ); else set( op( 0 ) );
			break;
		}
		case Instruction::Freeze: set( op( 0 ) ); break;
		case Instruction::Select: {
			const Val &c = op( 0 ), &a = op( 1 ), &b = op( 2 );
			if ( !c.agg ) { set( selectV( c.e, a, b ) ); break; }
			Val v; v.agg = std::make_shared<vector<Val>>(); for ( size_t i = 0; i < c.agg->size(); ++i ) v.agg->push_back( X.Ite( ( *c.agg )[ i ].e, ( *a.agg )[ i ].e, ( *b.agg )[ i ].e ) );
			set( v ); break;
		}
		case Instruction::GetElementPtr: {
			E a = op( 0 ).e; uint64_t off = d.off; E sum = nullptr;
			for ( auto& [ o, sc ] : d.idx ) {
				E i = get( f, o ).e; if ( i->w < 64 ) i = X.SExt( i, 64 ); else if ( i->w > 64 ) i = X.Extract( i, 0, 64 );
				if ( i->k == CONST ) { off += (uint64_t)i->val * sc; continue; }
				E t = X.Mul( i, X.C( 64, (u128)(i128)sc ) ); sum = sum ? X.Add( sum, t ) : t;
			}
			a = X.Add( a, X.C( 64, off ) ); if ( sum ) a = X.Add( a, sum );
			set( a ); break;
		}
		case Instruction::Alloca: {
			auto* al = cast<AllocaInst>( d.I ); uint64_t n = concretize( s, op( 0 ).e ) * DL->getTypeAllocSize( al->getAllocatedType() ).getFixedValue();
			Obj* o = alloc( s, n, OK_STACK, al->getAlign().value() ); s.st.back().allocas.push_back( o->base ); set( X.C( 64, o->base ) ); break;
		}
		case Instruction::Load: set( loadT( s, op( 0 ).e, d.ty ) ); break;
		case Instruction::Store: { auto* si = cast<StoreInst>( d.I ); Val v = op( 0 ); storeT( s, op( 1 ).e, si->getValueOperand()->getType(), v ); ++s.st.back().pc; break; }
		case Instruction::Fence: ++f.pc; break;
		case Instruction::AtomicRMW: {
			auto* rm = cast<AtomicRMWInst>( d.I ); E p = op( 0 ).e, v = op( 1 ).e; E old = load( s, p, v->w ); E nv;
			switch ( rm->getOperation() ) {
			case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = X.Add( old, v ); break; case AtomicRMWInst::Sub: nv = X.Sub( old, v ); break;
			case AtomicRMWInst::And: nv = X.And( old, v ); break; case AtomicRMWInst::Or: nv = X.Or( old, v ); break; case AtomicRMWInst::Xor: nv = X.Xor( old, v ); break;
			default: throw Unsupported( "atomicrmw" );
			}
			store( s, p, nv ); set( old ); break;
		}
		case Instruction::AtomicCmpXchg: {
			E p = op( 0 ).e, c = op( 1 ).e, n = op( 2 ).e; E old = load( s, p, c->w ); E eq = X.Eq( old, c );
			store( s, p, X.Ite( eq, n, old ) ); Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back( old ); v.agg->push_back( eq ); set( v ); break;
		}
		case Instruction::ExtractValue: { Val v = op( 0 ); for ( unsigned i : cast<ExtractValueInst>( d.I )->indices() ) { Val t = ( *v.agg )[ i ]; v = t; } set( v ); break; }
		case Instruction::InsertValue: {
			Val v = op( 0 ), x = op( 1 ); ArrayRef<unsigned> idx = cast<InsertValueInst>( d.I )->getIndices();
			std::function<Val( const Val&, size_t )> ins = [&]( const Val& a, size_t k ) -> Val { if ( k == idx.size() ) return x; Val r; r.agg = std::make_shared<vector<Val>>( *a.agg ); ( *r.agg )[ idx[ k ] ] = ins( ( *a.agg )[ idx[ k ] ], k + 1 ); return r; };
			set( ins( v, 0 ) ); break;
		}
		case Instruction::ExtractElement: { uint64_t i = concretize( s, op( 1 ).e ); const Val& v = op( 0 ); if ( i >= v.agg->size() ) throw Unsupported( "extractelement" ); set( Val( ( *v.agg )[ i ] ) ); break; }
		case Instruction::InsertElement: { uint64_t i = concretize( s, op( 2 ).e ); Val r; r.agg = std::make_shared<vector<Val>>( *op( 0 ).agg ); ( *r.agg )[ i ] = op( 1 ); set( r ); break; }
		case Instruction::ShuffleVector: {
			auto* sv = cast<ShuffleVectorInst>( d.I ); const Val &a = op( 0 ), &b = op( 1 ); Val r; r.agg = std::make_shared<vector<Val>>(); int n = (int)a.agg->size();
			for ( int m : sv->getShuffleMask() ) r.agg->push_back( m < 0 ? Val( X.C( ( *a.agg )[ 0 ].e->w, 0 ) ) : m < n ? ( *a.agg )[ m ] : ( *b.agg )[ m - n ] );
			set( r ); break;
		}
		case Instruction::Br: {
			if ( d.s1 < 0 ) { jump( s, d.s0 ); break; }
			std::unique_ptr<State> o; int r = branch( s, op( 0 ).e, o );
			if ( o ) { jump( *o, d.s1 ); work.push_back( std::move( o ) ); }
			jump( s, r ? d.s0 : d.s1 ); break;
		}
		case Instruction::Switch: {
			E v = op( 0 ).e;
			if ( v->k == CONST ) { int to = d.s0; for ( auto& [ c, b ] : d.cases ) if ( c == v->val ) { to = b; break; } jump( s, to ); break; }
			vector<std::pair<int, E>> tg; E any = X.F();
			for ( auto& [ c, b ] : d.cases ) { E q = X.Eq( v, X.C( v->w, c ) ); any = X.Or( any, q ); bool ok = false; for ( auto& t : tg ) if ( t.first == b ) { t.second = X.Or( t.second, q ); ok = true; } if ( !ok ) tg.push_back( { b, q } ); }
			for ( auto& t : tg ) if ( t.first == d.s0 ) t.second = X.Or( t.second, X.Not( any ) );
			// take targets one by one; the rest continues as forked states positioned at their target
			bool done = false;
			for ( auto& [ b, q ] : tg ) {
				std::unique_ptr<State> o; int r = branch( s, q, o );
				if ( r == 1 ) { jump( s, b ); done = true; break; }
				if ( r == 2 ) { // s took q; o is the remainder: swap so that s keeps being the remainder
					std::swap( s, *o ); jump( *o, b ); work.push_back( std::move( o ) );
				}
			}
			if ( !done ) jump( s, d.s0 );
			break;
		}
		case Instruction::Ret: { Val v; if ( !d.ops.empty() ) v = op( 0 ); ret( s, v ); break; }
		case Instruction::Unreachable: error( s, "unreachable", "control reached a point the compiler proved undefined (e.g. missing return value)" );
		case Instruction::Resume: { const Val& v = op( 0 ); uint64_t a = (uint64_t)( *v.agg )[ 0 ].e->val; uint64_t ti = s.excs.count( a ) ? s.excs[ a ] : 0; popFrame( s ); throwExc( s, a, ti ); break; }
		case Instruction::Call: case Instruction::Invoke: {
			auto* cb = cast<CallBase>( d.I );
			vector<Val> args; for ( size_t i = 0; i + 1 < d.ops.size(); ++i ) args.push_back( op( (int)i ) );
			if ( cb->isInlineAsm() ) { finishCall( s, d.ty->isVoidTy() ? Val() : args.empty() ? Val() : args[ 0 ] ); break; }
			Fn* callee = d.callee;
			if ( !callee ) {
				uint64_t a = concretize( s, op( (int)d.ops.size() - 1 ).e );
				auto it = fnByAddr.find( a );
				if ( it == fnByAddr.end() ) error( s, "memory", "call through an invalid function pointer" );
				callee = it->second;
			}
			call( s, callee, args, cb ); break;
		}
		case Instruction::VAArg: throw Unsupported( "va_arg instruction" );
		case 9999: throw Unsupported( unsupText[ d.I ] );
		default: throw Unsupported( string( "instruction " ) + d.I->getOpcodeName() );
		}
	}
	void run() {
		while ( !work.empty() ) {
			std::unique_ptr<State> s = std::move( work.back() ); work.pop_back();
			cur = s.get();
			try {
				uint64_t n = 0;
				for ( ;; ) {
					step( *s );
					if ( s->insts > O.maxInsts ) error( *s, "hang", "no termination within " + std::to_string( O.maxInsts ) + " executed instructions" );
					if ( ( ++n & 1023 ) == 0 && now() - tStart > O.maxTime ) { timedOut = true; return; }
				}
			}
			catch ( TermPath& ) {}
			catch ( Unsupported& u ) {
				string m = string( u.what() ) + " @ " + where( *s ); unsup[ m ]++; ++errPaths;
				if ( O.verbose ) fprintf( stderr, "UNSUPPORTED %s\n", m.c_str() );
			}
			if ( viols.size() >= O.maxViol ) return;
			if ( now() - tStart > O.maxTime || paths + errPaths > O.maxPaths ) { if ( !work.empty() ) timedOut = true; return; }
		}
	}
