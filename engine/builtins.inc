	// included inside struct Engine: intrinsics, allocation, exceptions runtime and the sym_* interface
	typedef void ( Engine::*BH )( State&, Fn*, vector<Val>&, CallBase* );
	std::map<string, int> btab; vector<std::function<void( State&, vector<Val>&, CallBase* )>> bh{ nullptr };
	std::map<string, double( * )( double )> m1; std::map<string, double( * )( double, double )> m2;
	uint64_t errnoAddr = 0;
	void reg( std::initializer_list<const char*> names, std::function<void( State&, vector<Val>&, CallBase* )> h ) { bh.push_back( h ); for ( auto n : names ) btab[ n ] = (int)bh.size() - 1; }
	int lookupBuiltin( Fn* f ) {
		if ( !f->F->isDeclaration() && ( f->name.compare( 0, 8, "pthread_" ) == 0 || f->name == "getenv" ) ) return 0; // harnesses define their own
		auto it = btab.find( f->name ); if ( it != btab.end() ) return it->second;
		if ( f->name.compare( 0, 5, "llvm." ) == 0 ) {
			// strip type suffixes
			string n = f->name;
			while ( true ) { if ( btab.count( n ) ) return btab[ f->name ] = btab[ n ]; size_t p = n.rfind( '.' ); if ( p == string::npos || p <= 4 ) break; n = n.substr( 0, p ); }
			return 0;
		}
		if ( f->F->isDeclaration() ) {
			string n = f->name; bool flt = false;
			if ( !m1.count( n ) && !m2.count( n ) && !n.empty() && n.back() == 'f' ) { n.pop_back(); flt = true; }
			if ( m1.count( n ) ) { reg( { f->name.c_str() }, [this, n]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, math1( s, n, a[ 0 ].e ) ); } ); return btab[ f->name ]; }
			if ( m2.count( n ) ) { reg( { f->name.c_str() }, [this, n]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, math2( s, n, a[ 0 ].e, a[ 1 ].e ) ); } ); return btab[ f->name ]; }
			(void)flt;
		}
		return 0;
	}
	void builtin( State& s, Fn* f, vector<Val>& a, CallBase* cb ) { bh[ f->builtin ]( s, a, cb ); }

	// ---- real-mode functions: fresh variables with their defining axioms, one per argument expression
	E rf( State& s, const string& n, E a, E b = nullptr ) {
		static std::map<std::tuple<string, E, E>, E> memo;
		auto key = std::make_tuple( n, a, b );
		auto it = memo.find( key );
		E r = it != memo.end() ? it->second : ( memo[ key ] = X.var( 64, n, true ) );
		for ( auto& t : s.apps ) if ( std::get<3>( t ) == r ) return r;
		s.apps.push_back( { n, a, b, r } );
		return r;
	}
	void ax( State& s, E c ) { // axiom: satisfiable extension of the path condition
		if ( c->k == CONST ) return; addC( s, c );
	}
	E r64( E a ) { return rconv( a, 64 ); }
	E realFun( State& s, const string& n, E x, E y = nullptr ) {
		unsigned w = x->w; x = r64( x ); if ( y ) y = r64( y );
		E zero = X.cr( 64, 0 ), one = X.cr( 64, 1 );
		auto mul = [&]( E a, E b ) { return X.RBin( RMUL, a, b ); }; auto add = [&]( E a, E b ) { return X.RBin( RADD, a, b ); };
		auto trig = [&]( E arg, bool sn ) -> E {
			bool neg = false; E q = arg;
			if ( q->k == RSUB && q->a->k == CONST && X.cd( q->a ) == 0 ) { neg = true; q = q->b; }
			if ( q->k == CONST && X.cd( q ) == 0 ) return sn ? zero : one;
			E sv = rf( s, "sin", q ), cv = rf( s, "cos", q );
			ax( s, X.REq( add( mul( sv, sv ), mul( cv, cv ) ), one ) );
			if ( q->k == RMUL || q->k == RDIV ) { // half angles: sin(2h) = 2 sin h cos h
			}
			return sn ? ( neg ? X.RNeg( sv ) : sv ) : cv;
		};
		E r;
		if ( n == "sqrt" ) {
			if ( x->k == CONST && X.cd( x ) >= 0 ) { double d = sqrt( X.cd( x ) ); if ( fma( d, d, -X.cd( x ) ) == 0 ) return rconv( X.cr( 64, d ), w ); }
			if ( !defined( s, X.RLe( zero, x ), "square roots of negative numbers" ) ) return rconv( rf( s, "sqrt0", x ), w );
			r = rf( s, "sqrt", x ); ax( s, X.RLe( zero, r ) ); ax( s, X.REq( mul( r, r ), x ) );
		}
		else if ( n == "cbrt" ) { r = rf( s, n, x ); ax( s, X.REq( mul( r, mul( r, r ) ), x ) ); }
		else if ( n == "pow" && y->k == CONST && X.cd( y ) == 0.5 ) return rconv( realFun( s, "sqrt", x ), w );
		else if ( n == "sin" ) r = trig( x, true );
		else if ( n == "cos" ) r = trig( x, false );
		else if ( n == "acos" || n == "asin" ) {
			if ( !defined( s, X.And( X.RLe( X.cr( 64, -1 ), x ), X.RLe( x, one ) ), "acos or asin of numbers beyond 1" ) ) return rconv( rf( s, n + "0", x ), w );
			r = rf( s, n, x ); bool c = n == "acos";
			ax( s, X.REq( trig( r, !c ), x ) ); ax( s, X.RLe( zero, trig( r, c ) ) );
			ax( s, X.RLe( c ? zero : X.cr( 64, -1.5707964 ), r ) ); ax( s, X.RLe( r, X.cr( 64, c ? 3.1415927 : 1.5707964 ) ) );
		}
		else if ( n == "atan2" ) { // x = first argument (y coordinate)
			E rr = realFun( s, "sqrt", add( mul( x, x ), mul( y, y ) ) );
			r = rf( s, n, x, y ); ax( s, X.REq( mul( trig( r, true ), rr ), x ) ); ax( s, X.REq( mul( trig( r, false ), rr ), y ) );
			ax( s, X.RLe( X.cr( 64, -3.1415927 ), r ) ); ax( s, X.RLe( r, X.cr( 64, 3.1415927 ) ) );
			ax( s, X.Or( X.RLe( x, zero ), X.RLt( zero, r ) ) ); ax( s, X.Or( X.RLe( zero, x ), X.RLt( r, zero ) ) );
		}
		else if ( n == "tan" ) { r = rf( s, n, x ); ax( s, X.REq( mul( r, trig( x, false ) ), trig( x, true ) ) ); }
		else if ( n == "atan" ) { r = rf( s, n, x ); ax( s, X.REq( mul( x, trig( r, false ) ), trig( r, true ) ) ); ax( s, X.RLt( zero, trig( r, false ) ) ); }
		else if ( n == "exp" ) {
			r = rf( s, n, x ); ax( s, X.RLt( zero, r ) ); ax( s, X.RLe( add( one, x ), r ) );
			ax( s, X.Or( X.RLe( zero, x ), X.RLt( r, one ) ) ); ax( s, X.Or( X.Not( X.REq( x, zero ) ), X.REq( r, one ) ) );
		}
		else if ( n == "tanh" ) {
			r = rf( s, n, x ); ax( s, X.RLt( r, one ) ); ax( s, X.RLt( X.cr( 64, -1 ), r ) );
			ax( s, X.Or( X.RLt( x, zero ), X.And( X.RLe( zero, r ), X.RLe( r, x ) ) ) ); ax( s, X.Or( X.RLt( zero, x ), X.And( X.RLe( r, zero ), X.RLe( x, r ) ) ) );
			ax( s, X.Or( X.REq( x, zero ), X.Not( X.REq( r, zero ) ) ) );
		}
		else if ( n == "pow" && y->k == CONST && fabs( X.cd( y ) ) <= 16 && X.cd( y ) == floor( X.cd( y ) ) ) {
			r = one; for ( int i = 0; i < fabs( X.cd( y ) ); ++i ) r = mul( r, x );
			if ( X.cd( y ) < 0 ) r = X.RBin( RDIV, one, r );
		}
		else throw Unsupported( "real-mode " + n );
		return rconv( r, w );
	}
	E math1( State& s, const string& n, E a ) {
		if ( n == "fabs" ) return fabsE( a );
		if ( a->k == CONST ) { if ( !O.real || X.cd( a ) == 0 || n == "floor" || n == "ceil" || n == "trunc" || n == "round" ) return a->w == 64 ? X.C( 64, fromD( m1[ n ]( asD( a->val ) ) ) ) : X.C( 32, fromF( float1( n, asF( a->val ) ) ) ); }
		if ( O.real && ( n == "floor" || n == "ceil" || n == "trunc" || n == "round" ) ) return X.cr( a->w, realInt( s, a, n == "trunc" ? 1 : n == "floor" ? 2 : n == "ceil" ? 3 : 4 ) );
		if ( O.real ) return realFun( s, n, a );
		if ( n == "sqrt" ) return X.FSqrt( a ); if ( n == "floor" ) return X.FRint( a, 2 ); if ( n == "ceil" ) return X.FRint( a, 3 ); if ( n == "trunc" ) return X.FRint( a, 1 );
		if ( n == "round" ) return X.FRint( a, 4 ); if ( n == "rint" || n == "nearbyint" ) return X.FRint( a, 0 );
		throw Unsupported( "symbolic " + n );
	}
	float float1( const string& n, float x ) { if ( n == "sin" ) return sinf( x ); if ( n == "cos" ) return cosf( x ); if ( n == "exp" ) return expf( x ); if ( n == "log" ) return logf( x ); return (float)m1[ n ]( x ); }
	E math2( State& s, const string& n, E a, E b ) {
		if ( n == "fmin" || n == "fmax" ) {
			bool mn = n == "fmin";
			if ( O.real ) return mn ? X.Ite( X.RLt( a, b ), a, b ) : X.Ite( X.RLt( a, b ), b, a );
			E lt = mn ? X.FBin( FLT, a, b ) : X.FBin( FLT, b, a );
			return X.Ite( X.FNan( a ), b, X.Ite( X.FNan( b ), a, X.Ite( lt, a, b ) ) );
		}
		if ( n == "copysign" && !O.real ) { unsigned w = a->w; return X.Concat( X.Extract( b, w - 1, 1 ), X.Extract( a, 0, w - 1 ) ); }
		if ( n == "copysign" ) { E m = fabsE( a ); return X.Ite( X.RLt( b, X.cr( b->w, 0 ) ), X.RNeg( m ), m ); } // real mode: no negative zero
		if ( a->k == CONST && b->k == CONST ) { double r = m2[ n ]( X.cd( a ), X.cd( b ) ); return X.cr( a->w, r ); }
		if ( O.real && n == "fmod" ) return realMod( s, a, b );
		if ( O.real ) return realFun( s, n, a, b );
		throw Unsupported( "symbolic " + n );
	}
	void doFree( State& s, E p, std::initializer_list<int> kinds, const char* what ) {
		uint64_t a = concretize( s, p );
		if ( a ) {
			auto it = s.mem.find( a );
			if ( it == s.mem.end() ) error( s, "memory", string( what ) + " of an address that is not a live allocation" );
			bool ok = false; for ( int k : kinds ) ok |= it->second->kind == k;
			if ( !ok ) error( s, "memory", string( what ) + " does not match the allocation" );
			s.mem.erase( it );
		}
		finishCall( s, Val() );
	}
	void doAlloc( State& s, E n, uint8_t kind, uint64_t align = 16 ) {
		uint64_t sz = concretize( s, n );
		if ( sz > ( 64ull << 20 ) ) error( s, "memory", "allocation of more than 64 MB for a bounded input" );
		Obj* o = alloc( s, sz, kind, align ); finishCall( s, X.C( 64, o->base ) );
	}
	void doMemcpy( State& s, vector<Val>& a ) {
		uint64_t n = concretize( s, a[ 2 ].e ); if ( n == 0 ) { finishCall( s, a[ 0 ] ); return; }
		uint64_t d = concretize( s, a[ 0 ].e ), c = concretize( s, a[ 1 ].e );
		copyMem( s, d, c, n ); finishCall( s, X.C( 64, d ) );
	}
	void inputsAdd( State& s, const string& name, char kind, vector<E> v ) { s.inputs.push_back( { name, kind, std::move( v ) } ); }
	vector<uint8_t> nextConc( size_t n ) { vector<uint8_t> r; if ( concPos < conc.size() ) r = conc[ concPos++ ]; r.resize( n, 0 ); return r; }

	void initBuiltins() {
#define M1( F ) m1[ #F ] = []( double x ) -> double { return ::F( x ); };
		M1( sin ) M1( cos ) M1( tan ) M1( asin ) M1( acos ) M1( atan ) M1( exp ) M1( log ) M1( log2 ) M1( log10 ) M1( sqrt ) M1( floor ) M1( ceil ) M1( trunc ) M1( round ) M1( rint ) M1( nearbyint ) M1( fabs ) M1( exp2 ) M1( tanh ) M1( sinh ) M1( cosh ) M1( cbrt ) M1( log1p ) M1( expm1 ) M1( erf ) M1( erfc )
#define M2( F ) m2[ #F ] = []( double x, double y ) -> double { return ::F( x, y ); };
		M2( pow ) M2( atan2 ) M2( fmod ) M2( fmin ) M2( fmax ) M2( copysign ) M2( hypot )
		auto nop = [this]( State& s, vector<Val>&, CallBase* ) { finishCall( s, Val() ); };
		auto zero32 = [this]( State& s, vector<Val>&, CallBase* ) { finishCall( s, X.C( 32, 0 ) ); };
		reg( { "llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.invariant.start", "llvm.invariant.end", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.stackrestore", "llvm.va_end", "llvm.prefetch", "llvm.sideeffect", "llvm.assume", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort", "__cxa_free_exception" }, nop );
		reg( { "llvm.stacksave", "getenv", "secure_getenv" }, [this]( State& s, vector<Val>&, CallBase* ) { finishCall( s, X.C( 64, 0 ) ); } );
		reg( { "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_destroy", "pthread_rwlock_init", "pthread_key_create", "pthread_setspecific", "__cxa_atexit", "__cxa_thread_atexit", "atexit", "sched_yield", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast" }, zero32 );
		reg( { "llvm.expect", "llvm.expect.with.probability", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation", "llvm.threadlocal.address", "llvm.ssa.copy", "llvm.arithmetic.fence", "llvm.canonicalize" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, a[ 0 ] ); } );
		reg( { "llvm.objectsize" }, [this]( State& s, vector<Val>& a, CallBase* cb ) { finishCall( s, X.C( bits( cb->getType() ), a[ 1 ].e->val ? 0 : ~(u128)0 ) ); } );
		reg( { "llvm.is.constant" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, X.F() ); } );
		reg( { "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove" }, [this]( State& s, vector<Val>& a, CallBase* ) { doMemcpy( s, a ); } );
		reg( { "llvm.memset", "memset" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t n = concretize( s, a[ 2 ].e ); if ( n == 0 ) { finishCall( s, a[ 0 ] ); return; }
			uint64_t d = concretize( s, a[ 0 ].e ); E off; const Obj* r = access( s, X.C( 64, d ), n, off, true ); Obj* o = forWrite( s, r ); E b = X.Extract( a[ 1 ].e, 0, 8 );
			for ( uint64_t i = 0; i < n; ++i ) writeObj( *o, d - o->base + i, b );
			finishCall( s, a[ 0 ] );
		} );
		auto cmp = [this]( State& s, vector<Val>& a, bool eqOnly ) {
			uint64_t n = concretize( s, a[ 2 ].e ); if ( n == 0 ) { finishCall( s, X.C( 32, 0 ) ); return; }
			uint64_t p = concretize( s, a[ 0 ].e ), q = concretize( s, a[ 1 ].e ); E off;
			const Obj* o1 = access( s, X.C( 64, p ), n, off, false ); const Obj* o2 = access( s, X.C( 64, q ), n, off, false );
			E r = X.C( 32, 0 ); E eq = X.T();
			for ( uint64_t i = n; i-- > 0; ) {
				E x = readByte( *o1, p - o1->base + i ), y = readByte( *o2, q - o2->base + i );
				E e = X.Eq( x, y );
				if ( eqOnly ) eq = X.And( eq, e ); else r = X.Ite( e, r, X.Ite( X.Ult( x, y ), X.C( 32, ~(u128)0 ), X.C( 32, 1 ) ) );
			}
			finishCall( s, eqOnly ? X.ZExt( X.Not( eq ), 32 ) : r );
		};
		reg( { "memcmp" }, [cmp]( State& s, vector<Val>& a, CallBase* ) { cmp( s, a, false ); } );
		reg( { "bcmp" }, [cmp]( State& s, vector<Val>& a, CallBase* ) { cmp( s, a, true ); } );
		reg( { "strlen" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t p = concretize( s, a[ 0 ].e ), q = p; E off;
			for ( ;; ++q ) { const Obj* o = access( s, X.C( 64, q ), 1, off, false ); E b = readByte( *o, q - o->base ); if ( b->k == CONST ) { if ( !b->val ) break; } else if ( decide( s, X.Eq( b, X.C( 8, 0 ) ) ) ) break; }
			finishCall( s, X.C( 64, q - p ) );
		} );
		reg( { "memchr" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t n = concretize( s, a[ 2 ].e ); if ( n == 0 ) { finishCall( s, X.C( 64, 0 ) ); return; }
			uint64_t p = concretize( s, a[ 0 ].e ); E c = X.Extract( a[ 1 ].e, 0, 8 ); E off; const Obj* o0 = find( s, p );
			if ( !o0 ) access( s, X.C( 64, p ), 1, off, false );
			uint64_t lim = std::min( n, o0->base + o0->size - p ); // memchr may stop before n
			bool conc = true; for ( uint64_t i = 0; i < lim && conc; ++i ) conc = readByte( *o0, p - o0->base + i )->k == CONST;
			if ( conc && c->k != CONST && lim == n ) { E r = X.C( 64, 0 ); for ( uint64_t i = n; i-- > 0; ) r = X.Ite( X.Eq( c, readByte( *o0, p - o0->base + i ) ), X.C( 64, p + i ), r ); finishCall( s, r ); return; }
			for ( uint64_t i = 0; i < n; ++i ) { const Obj* o = access( s, X.C( 64, p + i ), 1, off, false ); E b = readByte( *o, p + i - o->base ); if ( decide( s, X.Eq( b, c ) ) ) { finishCall( s, X.C( 64, p + i ) ); return; } }
			finishCall( s, X.C( 64, 0 ) );
		} );
		reg( { "strchr" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t p = concretize( s, a[ 0 ].e ); E c = X.Extract( a[ 1 ].e, 0, 8 ); string str; E off;
			if ( c->k != CONST && concreteStr( s, X.C( 64, p ), str ) ) {
				E r = X.C( 64, 0 ); for ( size_t i = str.size() + 1; i-- > 0; ) r = X.Ite( X.Eq( c, X.C( 8, (uint8_t)str.c_str()[ i ] ) ), X.C( 64, p + i ), r );
				finishCall( s, r ); return;
			}
			for ( uint64_t q = p;; ++q ) {
				const Obj* o = access( s, X.C( 64, q ), 1, off, false ); E b = readByte( *o, q - o->base );
				if ( decide( s, X.Eq( b, c ) ) ) { finishCall( s, X.C( 64, q ) ); return; }
				if ( decide( s, X.Eq( b, X.C( 8, 0 ) ) ) ) { finishCall( s, X.C( 64, 0 ) ); return; }
			}
		} );
		reg( { "_Znwm" }, [this]( State& s, vector<Val>& a, CallBase* ) { doAlloc( s, a[ 0 ].e, OK_HEAP_NEW ); } );
		reg( { "_Znam" }, [this]( State& s, vector<Val>& a, CallBase* ) { doAlloc( s, a[ 0 ].e, OK_HEAP_NEWARR ); } );
		reg( { "_ZnwmRKSt9nothrow_t" }, [this]( State& s, vector<Val>& a, CallBase* ) { doAlloc( s, a[ 0 ].e, OK_HEAP_NEW ); } );
		reg( { "_ZnwmSt11align_val_t" }, [this]( State& s, vector<Val>& a, CallBase* ) { doAlloc( s, a[ 0 ].e, OK_HEAP_NEW, concretize( s, a[ 1 ].e ) ); } );
		reg( { "malloc" }, [this]( State& s, vector<Val>& a, CallBase* ) { doAlloc( s, a[ 0 ].e, OK_HEAP_MALLOC ); } );
		reg( { "aligned_alloc" }, [this]( State& s, vector<Val>& a, CallBase* ) { doAlloc( s, a[ 1 ].e, OK_HEAP_MALLOC, concretize( s, a[ 0 ].e ) ); } );
		reg( { "calloc" }, [this]( State& s, vector<Val>& a, CallBase* ) { uint64_t n = concretize( s, a[ 0 ].e ) * concretize( s, a[ 1 ].e ); Obj* o = alloc( s, n, OK_HEAP_MALLOC ); std::fill( o->c.begin(), o->c.end(), 0 ); finishCall( s, X.C( 64, o->base ) ); } );
		reg( { "_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t" }, [this]( State& s, vector<Val>& a, CallBase* ) { doFree( s, a[ 0 ].e, { OK_HEAP_NEW }, "delete" ); } );
		reg( { "_ZdaPv", "_ZdaPvm" }, [this]( State& s, vector<Val>& a, CallBase* ) { doFree( s, a[ 0 ].e, { OK_HEAP_NEWARR }, "delete[]" ); } );
		reg( { "free" }, [this]( State& s, vector<Val>& a, CallBase* ) { doFree( s, a[ 0 ].e, { OK_HEAP_MALLOC }, "free" ); } );
		reg( { "__errno_location" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, X.C( 64, errnoAddr ) ); } );
		// exceptions
		reg( { "__cxa_allocate_exception" }, [this]( State& s, vector<Val>& a, CallBase* ) { Obj* o = alloc( s, concretize( s, a[ 0 ].e ), OK_EXC ); finishCall( s, X.C( 64, o->base ) ); } );
		reg( { "__cxa_throw" }, [this]( State& s, vector<Val>& a, CallBase* ) { uint64_t p = (uint64_t)a[ 0 ].e->val, ti = (uint64_t)a[ 1 ].e->val; s.excs[ p ] = ti; throwExc( s, p, ti ); } );
		reg( { "__cxa_begin_catch" }, [this]( State& s, vector<Val>& a, CallBase* ) { s.caught.push_back( (uint64_t)a[ 0 ].e->val ); finishCall( s, a[ 0 ] ); } );
		reg( { "__cxa_get_exception_ptr" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, a[ 0 ] ); } );
		reg( { "__cxa_end_catch" }, [this]( State& s, vector<Val>& a, CallBase* ) { if ( !s.caught.empty() ) s.caught.pop_back(); finishCall( s, Val() ); } );
		reg( { "__cxa_rethrow" }, [this]( State& s, vector<Val>& a, CallBase* ) { if ( s.caught.empty() ) error( s, "terminate", "rethrow without a current exception" ); uint64_t p = s.caught.back(); throwExc( s, p, s.excs[ p ] ); } );
		reg( { "llvm.eh.typeid.for" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, X.C( 32, (uint32_t)typeId( (uint64_t)a[ 0 ].e->val ) ) ); } );
		reg( { "_ZSt9terminatev" }, [this]( State& s, vector<Val>& a, CallBase* ) { error( s, "terminate", "std::terminate called" ); } );
		reg( { "__cxa_pure_virtual" }, [this]( State& s, vector<Val>& a, CallBase* ) { error( s, "terminate", "pure virtual call" ); } );
		reg( { "abort", "llvm.trap", "llvm.ubsantrap", "__assert_fail" }, [this]( State& s, vector<Val>& a, CallBase* ) { error( s, "abort", "abort called" ); } );
		reg( { "_ZSt21__glibcxx_assert_failPKciS0_S0_" }, [this]( State& s, vector<Val>& a, CallBase* ) { string m; concreteStr( s, a[ 3 ].e, m ); string fnm; concreteStr( s, a[ 2 ].e, fnm ); error( s, "memory", "library precondition violated: " + m + " in " + fnm.substr( 0, 120 ) ); } );
		reg( { "exit", "_exit", "quick_exit" }, [this]( State& s, vector<Val>& a, CallBase* ) { error( s, "abort", "exit called" ); } );
		reg( { "__cxa_guard_acquire" }, [this]( State& s, vector<Val>& a, CallBase* ) { E b = load( s, a[ 0 ].e, 8 ); finishCall( s, X.ZExt( X.Eq( b, X.C( 8, 0 ) ), 32 ) ); } );
		reg( { "__cxa_guard_release" }, [this]( State& s, vector<Val>& a, CallBase* ) { store( s, a[ 0 ].e, X.C( 8, 1 ) ); finishCall( s, Val() ); } );
		reg( { "__dynamic_cast" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t p = concretize( s, a[ 0 ].e ); uint64_t dst = (uint64_t)a[ 2 ].e->val;
			uint64_t vp = concretize( s, load( s, X.C( 64, p ), 64 ) ); uint64_t ti = concretize( s, load( s, X.C( 64, vp - 8 ), 64 ) ); int64_t top = (int64_t)concretize( s, load( s, X.C( 64, vp - 16 ), 64 ) );
			finishCall( s, X.C( 64, tiMatches( ti, dst ) ? p + top : 0 ) );
		} );
		// integer intrinsics
		auto ew = [this]( const char* n, std::function<E( E, E )> f ) { reg( { n }, [this, f]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map2( a[ 0 ], a[ 1 ], f ) ); } ); };
		ew( "llvm.umax", []( E a, E b ) { return X.Ite( X.Ult( a, b ), b, a ); } ); ew( "llvm.umin", []( E a, E b ) { return X.Ite( X.Ult( a, b ), a, b ); } );
		ew( "llvm.smax", []( E a, E b ) { return X.Ite( X.Slt( a, b ), b, a ); } ); ew( "llvm.smin", []( E a, E b ) { return X.Ite( X.Slt( a, b ), a, b ); } );
		ew( "llvm.usub.sat", []( E a, E b ) { return X.Ite( X.Ult( a, b ), X.C( a->w, 0 ), X.Sub( a, b ) ); } );
		ew( "llvm.uadd.sat", []( E a, E b ) { E r = X.Add( a, b ); return X.Ite( X.Ult( r, a ), X.C( a->w, ~(u128)0 ), r ); } );
		ew( "llvm.ptrmask", []( E a, E b ) { return X.And( a, b ); } );
		reg( { "llvm.abs" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map1( a[ 0 ], [&]( E x ) { return X.Ite( X.Slt( x, X.C( x->w, 0 ) ), X.Sub( X.C( x->w, 0 ), x ), x ); } ) ); } );
		reg( { "llvm.bswap" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map1( a[ 0 ], [&]( E x ) { E r = X.Extract( x, 0, 8 ); for ( unsigned i = 8; i < x->w; i += 8 ) r = X.Concat( r, X.Extract( x, i, 8 ) ); return r; } ) ); } );
		reg( { "llvm.ctpop" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map1( a[ 0 ], [&]( E x ) { E r = X.C( x->w, 0 ); for ( unsigned i = 0; i < x->w; ++i ) r = X.Add( r, X.ZExt( X.Extract( x, i, 1 ), x->w ) ); return r; } ) ); } );
		reg( { "llvm.ctlz" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map1( a[ 0 ], [&]( E x ) { E r = X.C( x->w, x->w ); for ( unsigned i = 0; i < x->w; ++i ) r = X.Ite( X.Eq( X.Extract( x, i, 1 ), X.T() ), X.C( x->w, x->w - 1 - i ), r ); return r; } ) ); } );
		reg( { "llvm.cttz" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map1( a[ 0 ], [&]( E x ) { E r = X.C( x->w, x->w ); for ( unsigned i = x->w; i-- > 0; ) r = X.Ite( X.Eq( X.Extract( x, i, 1 ), X.T() ), X.C( x->w, i ), r ); return r; } ) ); } );
		auto fsh = [this]( State& s, vector<Val>& a, bool left ) {
			E x = a[ 0 ].e, y = a[ 1 ].e, k = X.URem( a[ 2 ].e, X.C( x->w, x->w ) ); E w = X.C( x->w, x->w ); E z = X.Eq( k, X.C( x->w, 0 ) );
			E r = left ? X.Or( X.Shl( x, k ), X.LShr( y, X.Sub( w, k ) ) ) : X.Or( X.Shl( x, X.Sub( w, k ) ), X.LShr( y, k ) );
			finishCall( s, X.Ite( z, left ? x : y, r ) );
		};
		reg( { "llvm.fshl" }, [fsh]( State& s, vector<Val>& a, CallBase* ) { fsh( s, a, true ); } );
		reg( { "llvm.fshr" }, [fsh]( State& s, vector<Val>& a, CallBase* ) { fsh( s, a, false ); } );
		auto ovf = [this]( const char* n, std::function<E( E, E )> f, std::function<E( E, E, E )> o ) { reg( { n }, [this, f, o]( State& s, vector<Val>& a, CallBase* ) { E r = f( a[ 0 ].e, a[ 1 ].e ); Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back( r ); v.agg->push_back( o( a[ 0 ].e, a[ 1 ].e, r ) ); finishCall( s, v ); } ); };
		auto sgn = []( E x ) { return X.Slt( x, X.C( x->w, 0 ) ); };
		ovf( "llvm.uadd.with.overflow", []( E a, E b ) { return X.Add( a, b ); }, []( E a, E b, E r ) { return X.Ult( r, a ); } );
		ovf( "llvm.usub.with.overflow", []( E a, E b ) { return X.Sub( a, b ); }, []( E a, E b, E r ) { return X.Ult( a, b ); } );
		ovf( "llvm.umul.with.overflow", []( E a, E b ) { return X.Mul( a, b ); }, []( E a, E b, E r ) { if ( a->w > 64 ) throw Unsupported( "umul overflow width" ); unsigned w = a->w * 2; E p = X.Mul( X.ZExt( a, w ), X.ZExt( b, w ) ); return X.Not( X.Eq( X.Extract( p, a->w, a->w ), X.C( a->w, 0 ) ) ); } );
		ovf( "llvm.smul.with.overflow", []( E a, E b ) { return X.Mul( a, b ); }, []( E a, E b, E r ) { if ( a->w > 64 ) throw Unsupported( "smul overflow width" ); unsigned w = a->w * 2; E p = X.Mul( X.SExt( a, w ), X.SExt( b, w ) ); return X.Not( X.Eq( p, X.SExt( r, w ) ) ); } );
		ovf( "llvm.sadd.with.overflow", []( E a, E b ) { return X.Add( a, b ); }, [sgn]( E a, E b, E r ) { return X.And( X.Eq( sgn( a ), sgn( b ) ), X.Not( X.Eq( sgn( a ), sgn( r ) ) ) ); } );
		ovf( "llvm.ssub.with.overflow", []( E a, E b ) { return X.Sub( a, b ); }, [sgn]( E a, E b, E r ) { return X.And( X.Not( X.Eq( sgn( a ), sgn( b ) ) ), X.Not( X.Eq( sgn( a ), sgn( r ) ) ) ); } );
		// floating point intrinsics
		for ( const char* n : { "sqrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "sin", "cos", "exp", "log", "log2", "log10", "exp2" } ) {
			string nm = n; string full = "llvm." + nm;
			bh.push_back( [this, nm]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map1( a[ 0 ], [&]( E x ) { return math1( s, nm, x ); } ) ); } ); btab[ full ] = (int)bh.size() - 1;
		}
		for ( auto [ n, m ] : std::initializer_list<std::pair<const char*, const char*>>{ { "llvm.pow", "pow" }, { "llvm.minnum", "fmin" }, { "llvm.maxnum", "fmax" }, { "llvm.copysign", "copysign" } } ) {
			string nm = m; bh.push_back( [this, nm]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map2( a[ 0 ], a[ 1 ], [&]( E x, E y ) { return math2( s, nm, x, y ); } ) ); } ); btab[ n ] = (int)bh.size() - 1;
		}
		reg( { "llvm.powi" }, [this]( State& s, vector<Val>& a, CallBase* ) { int64_t n = (int32_t)concretize( s, a[ 1 ].e ); E r = X.cr( a[ 0 ].e->w, 1 ); if ( n < 0 ) throw Unsupported( "powi" ); for ( int i = 0; i < n; ++i ) r = fop( s, Instruction::FMul, r, a[ 0 ].e ); finishCall( s, r ); } );
		reg( { "llvm.fmuladd", "llvm.fma" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, map2( map2( a[ 0 ], a[ 1 ], [&]( E x, E y ) { return fop( s, Instruction::FMul, x, y ); } ), a[ 2 ], [&]( E x, E y ) { return fop( s, Instruction::FAdd, x, y ); } ) ); } );
		reg( { "llvm.is.fpclass" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			E x = a[ 0 ].e; unsigned m = (unsigned)a[ 1 ].e->val; if ( O.real ) { if ( m == 3 ) { finishCall( s, X.F() ); return; } if ( m == 516 || m == 504 ) { finishCall( s, X.B( m == 504 ) ); return; } throw Unsupported( "fpclass" ); }
			unsigned w = x->w, mb = w == 64 ? 52 : 23, eb = w - 1 - mb; E ex = X.Extract( x, mb, eb ), ma = X.Extract( x, 0, mb ), sg = X.Extract( x, w - 1, 1 );
			E e1 = X.Eq( ex, X.C( eb, ~(u128)0 ) ), e0 = X.Eq( ex, X.C( eb, 0 ) ), m0 = X.Eq( ma, X.C( mb, 0 ) ); E nan = X.And( e1, X.Not( m0 ) ), inf = X.And( e1, m0 ), zer = X.And( e0, m0 ), sub = X.And( e0, X.Not( m0 ) ), nor = X.And( X.Not( e1 ), X.Not( e0 ) );
			E ns = X.Not( sg ); E r = X.F(); E q = X.Eq( X.Extract( x, mb - 1, 1 ), X.T() );
			auto add = [&]( unsigned b, E c ) { if ( m & b ) r = X.Or( r, c ); };
			add( 1, X.And( nan, X.Not( q ) ) ); add( 2, X.And( nan, q ) ); add( 4, X.And( inf, sg ) ); add( 8, X.And( nor, sg ) ); add( 16, X.And( sub, sg ) ); add( 32, X.And( zer, sg ) ); add( 64, X.And( zer, ns ) ); add( 128, X.And( sub, ns ) ); add( 256, X.And( nor, ns ) ); add( 512, X.And( inf, ns ) );
			finishCall( s, r );
		} );
		reg( { "llvm.va_start" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			Frame& f = s.st.back(); Obj* o = alloc( s, std::max<size_t>( 8, f.va.size() * 8 ), OK_STACK ); f.allocas.push_back( o->base ); uint64_t b = o->base; vector<Val> va = f.va;
			for ( size_t i = 0; i < va.size(); ++i ) store( s, X.C( 64, b + 8 * i ), va[ i ].e->w < 64 && !va[ i ].e->real ? X.ZExt( va[ i ].e, 64 ) : va[ i ].e );
			E p = a[ 0 ].e; store( s, p, X.C( 32, 48 ) ); store( s, X.Add( p, X.C( 64, 4 ) ), X.C( 32, 176 ) ); store( s, X.Add( p, X.C( 64, 8 ) ), X.C( 64, b ) ); store( s, X.Add( p, X.C( 64, 16 ) ), X.C( 64, 0 ) );
			finishCall( s, Val() );
		} );
		reg( { "llvm.va_copy" }, [this]( State& s, vector<Val>& a, CallBase* ) { copyMem( s, concretize( s, a[ 0 ].e ), concretize( s, a[ 1 ].e ), 24 ); finishCall( s, Val() ); } );
		reg( { "llvm.vector.reduce.add" }, [this]( State& s, vector<Val>& a, CallBase* ) { E r = nullptr; for ( auto& v : *a[ 0 ].agg ) r = r ? X.Add( r, v.e ) : v.e; finishCall( s, r ); } );
		reg( { "llvm.vector.reduce.and" }, [this]( State& s, vector<Val>& a, CallBase* ) { E r = nullptr; for ( auto& v : *a[ 0 ].agg ) r = r ? X.And( r, v.e ) : v.e; finishCall( s, r ); } );
		reg( { "llvm.vector.reduce.or" }, [this]( State& s, vector<Val>& a, CallBase* ) { E r = nullptr; for ( auto& v : *a[ 0 ].agg ) r = r ? X.Or( r, v.e ) : v.e; finishCall( s, r ); } );
		// ---- sym interface
		reg( { "sym_make" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t p = concretize( s, a[ 0 ].e ), n = concretize( s, a[ 1 ].e ); string name = cstr( s, a[ 2 ].e ); vector<E> v; E off;
			if ( !O.concrete.empty() ) { auto c = nextConc( n ); for ( uint8_t b : c ) v.push_back( X.C( 8, b ) ); }
			else if ( n == 1 || n == 2 || n == 4 || n == 8 ) v.push_back( symVar( s, n * 8, name ) );
			else for ( uint64_t i = 0; i < n; ++i ) v.push_back( symVar( s, 8, name + "[" + std::to_string( i ) + "]" ) );
			const Obj* r = access( s, X.C( 64, p ), n, off, true ); Obj* o = forWrite( s, r ); uint64_t q = p - o->base;
			for ( E e : v ) { writeObj( *o, q, e ); q += e->w / 8; }
			inputsAdd( s, name, 'b', v ); finishCall( s, Val() );
		} );
		reg( { "sym_bytes" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			uint64_t p = concretize( s, a[ 0 ].e ), n = concretize( s, a[ 1 ].e ); string name = cstr( s, a[ 2 ].e ); vector<E> v; E off;
			if ( !O.concrete.empty() ) { auto c = nextConc( n ); for ( uint8_t b : c ) v.push_back( X.C( 8, b ) ); }
			else for ( uint64_t i = 0; i < n; ++i ) v.push_back( symVar( s, 8, name + "[" + std::to_string( i ) + "]" ) );
			if ( n ) { const Obj* r = access( s, X.C( 64, p ), n, off, true ); Obj* o = forWrite( s, r ); uint64_t q = p - o->base; for ( E e : v ) writeObj( *o, q++, e ); }
			inputsAdd( s, name, 'b', v ); finishCall( s, Val() );
		} );
		reg( { "sym_real" }, [this]( State& s, vector<Val>& a, CallBase* ) { // a double: a real variable in real mode, any finite double otherwise
			string name = cstr( s, a[ 0 ].e ); E v;
			if ( !O.concrete.empty() ) { auto c = nextConc( 8 ); u128 x = 0; for ( int i = 0; i < 8; ++i ) x |= (u128)c[ i ] << ( 8 * i ); v = X.C( 64, x ); }
			else v = symVar( s, 64, name, O.real );
			inputsAdd( s, name, O.real ? 'r' : 'b', { v } ); finishCall( s, v );
		} );
		reg( { "sym_choice" }, [this]( State& s, vector<Val>& a, CallBase* ) { // value in [0,n), explored exhaustively as separate states
			uint64_t n = concretize( s, a[ 0 ].e ); string name = cstr( s, a[ 1 ].e );
			if ( n == 0 ) { ++infeasible; throw TermPath(); }
			if ( !O.concrete.empty() ) { auto c = nextConc( 4 ); uint32_t x = c[ 0 ] | c[ 1 ] << 8 | c[ 2 ] << 16 | (uint32_t)c[ 3 ] << 24; x %= n; inputsAdd( s, name, 'b', { X.C( 32, x ) } ); finishCall( s, X.C( 32, x ) ); return; }
			for ( uint64_t i = n; i-- > 1; ) { auto o = std::make_unique<State>( s ); ++forks; inputsAdd( *o, name, 'b', { X.C( 32, i ) } ); finishCall( *o, X.C( 32, i ) ); work.push_back( std::move( o ) ); }
			inputsAdd( s, name, 'b', { X.C( 32, 0 ) } ); finishCall( s, X.C( 32, 0 ) );
		} );
		reg( { "sym_param" }, [this]( State& s, vector<Val>& a, CallBase* ) { string n = cstr( s, a[ 0 ].e ); auto it = O.params.find( n ); finishCall( s, it == O.params.end() ? a[ 1 ].e : X.C( 64, (u128)(i128)it->second ) ); } );
		reg( { "sym_symbolic" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, X.C( 32, O.concrete.empty() ) ); } );
		reg( { "sym_assume" }, [this]( State& s, vector<Val>& a, CallBase* ) { E c = X.Not( X.Eq( a[ 0 ].e, X.C( a[ 0 ].e->w, 0 ) ) ); ++assumes; assume( s, c ); finishCall( s, Val() ); } );
		reg( { "sym_unique64" }, [this]( State& s, vector<Val>& a, CallBase* ) { // the constant, if the path allows only one value
			E v = a[ 0 ].e;
			if ( v->k != CONST && !v->hr && !v->fp ) { E c = X.C( 64, evalE( v, *s.model ) ); if ( SV->check( s.pc, X.Not( X.Eq( v, c ) ), nullptr ) == UNSAT ) { s.known[ v ] = c; v = c; } }
			finishCall( s, v );
		} );
		reg( { "sym_req" }, [this]( State& s, vector<Val>& a, CallBase* ) { finishCall( s, X.ZExt( O.real ? X.REq( a[ 0 ].e, a[ 1 ].e ) : X.FBin( FEQ, a[ 0 ].e, a[ 1 ].e ), 32 ) ); } );
		reg( { "sym_assert" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			E c = X.Not( X.Eq( a[ 0 ].e, X.C( a[ 0 ].e->w, 0 ) ) ); ++asserts;
			string msg; if ( !concreteStr( s, X.C( 64, concretize( s, a[ 1 ].e ) ), msg ) ) msg = "?";
			doAssert( s, c, msg );
			finishCall( s, Val() );
		} );
		// sym_known(id, cond): failures of this path from here on where cond holds are known finding `id`
		reg( { "sym_known" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			string id = cstr( s, a[ 0 ].e ); E c = X.Not( X.Eq( a[ 1 ].e, X.C( a[ 1 ].e->w, 0 ) ) );
			s.notes.push_back( id ); (void)c; finishCall( s, Val() );
		} );
		reg( { "sym_reach" }, [this]( State& s, vector<Val>& a, CallBase* ) {
			string l; if ( !concreteStr( s, X.C( 64, concretize( s, a[ 0 ].e ) ), l ) ) l = "?";
			auto it = reach.find( l );
			if ( it == reach.end() ) { reach[ l ] = { 1, Violation{ "reach", l, "", s.inputs, s.model, s.rmodel, "" } }; } else ++it->second.first;
			finishCall( s, Val() );
		} );
		reg( { "sym_out" }, [this]( State& s, vector<Val>& a, CallBase* ) { s.outs.push_back( a[ 0 ].e ); if ( !O.concrete.empty() ) printf( "OUT %llu\n", (unsigned long long)( a[ 0 ].e->k == CONST ? (uint64_t)a[ 0 ].e->val : 0xdeadull ) ); finishCall( s, Val() ); } );
		reg( { "sym_fmt_double" }, [this]( State& s, vector<Val>& a, CallBase* ) { // (buf, n, fmt, prec, value): concrete formatting by the host libc
			string fmt = cstr( s, a[ 2 ].e ); int prec = (int)(int32_t)concretize( s, a[ 3 ].e ); E v = a[ 4 ].e; if ( v->k != CONST ) throw Unsupported( "formatting of a symbolic double" );
			char tmp[ 512 ]; int r = prec >= 0 ? snprintf( tmp, sizeof tmp, fmt.c_str(), prec, asD( v->val ) ) : snprintf( tmp, sizeof tmp, fmt.c_str(), asD( v->val ) );
			uint64_t n = concretize( s, a[ 1 ].e ), p = concretize( s, a[ 0 ].e );
			if ( n ) { uint64_t m = std::min<uint64_t>( n - 1, strlen( tmp ) ); for ( uint64_t i = 0; i < m; ++i ) store( s, X.C( 64, p + i ), X.C( 8, (uint8_t)tmp[ i ] ) ); store( s, X.C( 64, p + m ), X.C( 8, 0 ) ); }
			finishCall( s, X.C( 32, (uint32_t)r ) );
		} );
		reg( { "sym_strtod" }, [this]( State& s, vector<Val>& a, CallBase* ) { // (const char*, uint64_t* used)
			string t; E off; // symbolic characters: first whether they can be part of a number, then value by value
			for ( uint64_t q = concretize( s, a[ 0 ].e );; ++q ) {
				const Obj* o = find( s, q ); if ( !o || q >= o->base + o->size ) { access( s, X.C( 64, q ), 1, off, false ); throw Unsupported( "strtod beyond an object" ); }
				E b = readByte( *o, q - o->base );
				if ( b->k != CONST ) {
					E num = X.C( 1, 0 ); for ( const char* c = "0123456789+-.eEinfINFatyATYxXpP_() \t\n"; *c; ++c ) num = X.Or( num, X.Eq( b, X.C( 8, (uint8_t)*c ) ) );
					if ( !decide( s, num ) ) break;
					b = X.C( 8, concretize( s, b ) );
				}
				if ( !b->val ) break; t += (char)b->val;
			}
			char* e; double d = strtod( t.c_str(), &e ); store( s, a[ 1 ].e, X.C( 64, e - t.c_str() ) ); finishCall( s, X.C( 64, fromD( d ) ) );
		} );
	}
	E symVar( State& s, unsigned w, const string& name, bool real = false ) {
		// one variable per (position on the path, width, kind): states that execute the same input sequence share variables
		static std::map<std::tuple<uint32_t, unsigned, bool>, E> pool;
		auto key = std::make_tuple( s.nvars++, w, real );
		auto it = pool.find( key ); if ( it != pool.end() ) return it->second;
		return pool[ key ] = X.var( w, name, real );
	}
	// adds, for every two applications of a real-mode function on this path, that equal arguments give equal values
	bool congruence( State& t ) {
		bool any = false;
		for ( size_t i = 0; i < t.apps.size(); ++i ) for ( size_t j = 0; j < i; ++j ) {
			auto& [ n1, a1, b1, r1 ] = t.apps[ i ]; auto& [ n2, a2, b2, r2 ] = t.apps[ j ];
			if ( n1 != n2 || ( b1 == nullptr ) != ( b2 == nullptr ) ) continue;
			E same = X.REq( a1, a2 ); if ( b1 ) same = X.And( same, X.REq( b1, b2 ) );
			E rs = X.REq( r1, r2 ); if ( rs->k == CONST ) continue;
			const Solver::Entry* en = nullptr; bool always = same->k != CONST && SV->check( t.pc, X.Not( same ), &en ) == UNSAT;
			E c = always ? rs : X.Or( X.Not( same ), rs );
			if ( c->k != CONST ) { addC( t, c ); any = true; }
		}
		return any;
	}
	void doAssert( State& s, E c, const string& msg ) {
		if ( c->k == CONST && c->val ) return;
		++assertQueries;
		E n = X.Not( c );
		const Solver::Entry* en = nullptr; Res r = may( s, n, &en );
		if ( r == UNSAT ) return;
		if ( r == SAT ) {
			State t = s;
			if ( O.real && congruence( t ) ) { // the functions of real mode are functions: equal arguments, equal values
				static std::map<vector<E>, Solver::Entry> solved; vector<E> all = t.pc; if ( n->k != CONST ) all.push_back( n );
				std::sort( all.begin(), all.end(), []( E x, E y ) { return x->id < y->id; } ); all.erase( std::unique( all.begin(), all.end() ), all.end() );
				auto it = solved.find( all ); if ( it == solved.end() ) it = solved.emplace( all, SV->solve( all ) ).first;
				if ( O.verbose ) fprintf( stderr, "congruence: %s\n", it->second.r == UNSAT ? "unsat" : it->second.r == SAT ? "sat" : "unknown" );
				if ( it->second.r == UNSAT ) { if ( c->k == CONST ) { ++infeasible; throw TermPath(); } addC( s, c ); return; }
				if ( it->second.r == SAT ) en = &it->second; else t = s; // no answer: keep the first candidate, the replay against the real code decides
			}
			addC( t, n ); if ( en ) patch( t, en );
			violation( t, "assert", msg );
			const Solver::Entry* e2; Res q = may( s, c, &e2 );
			if ( q != SAT ) { ++errPaths; throw TermPath(); }
			if ( e2 ) patch( s, e2 );
		}
		addC( s, c );
	}
