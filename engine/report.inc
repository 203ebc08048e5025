	// included inside struct Engine: driver and JSON report
	static string esc( const string& s ) { string r = "\""; for ( unsigned char c : s ) { if ( c == '"' || c == '\\' ) { r += '\\'; r += c; } else if ( c < 32 || c > 126 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", c ); r += b; } else r += c; } return r + "\""; }
	string inputsJson( const Violation& v ) {
		string r = "["; bool first = true;
		for ( auto& in : v.in ) {
			r += first ? "" : ","; first = false;
			r += "{\"name\":" + esc( in.name ) + ",\"kind\":\"" + string( 1, in.kind ) + "\",";
			if ( in.kind == 'r' ) {
				E e = in.v[ 0 ]; string t = "0";
				if ( e->k == CONST ) { char b[ 64 ]; snprintf( b, 64, "%.17g", asD( e->val ) ); t = b; } else { auto it = v.rm.find( (uint32_t)e->val ); if ( it != v.rm.end() ) t = it->second; }
				if ( !t.empty() && t.back() == '?' ) t.pop_back();
				r += "\"real\":" + esc( t ) + "}";
			}
			else {
				string h;
				for ( E e : in.v ) { u128 x = evalE( e, *v.m ); for ( unsigned i = 0; i < e->w; i += 8 ) { char b[ 4 ]; snprintf( b, 4, "%02x", (unsigned)( ( x >> i ) & 255 ) ); h += b; } }
				r += "\"hex\":\"" + h + "\"}";
			}
		}
		return r + "]";
	}
	int main() {
		tStart = now();
		SMDiagnostic err; M = parseIRFile( O.bc, err, lctx );
		if ( !M ) { err.print( "xosym", errs() ); return 2; }
		DL = &M->getDataLayout();
		if ( !O.concrete.empty() ) {
			FILE* f = fopen( O.concrete.c_str(), "r" ); if ( !f ) { fprintf( stderr, "cannot read %s\n", O.concrete.c_str() ); return 2; }
			char line[ 65536 ];
			while ( fgets( line, sizeof line, f ) ) { vector<uint8_t> b; string h = line; size_t sp = h.find( ' ' ); h = sp == string::npos ? h : h.substr( sp + 1 ); for ( size_t i = 0; i + 1 < h.size() && isxdigit( h[ i ] ); i += 2 ) b.push_back( (uint8_t)std::stoi( h.substr( i, 2 ), nullptr, 16 ) ); conc.push_back( b ); }
			fclose( f );
		}
		initBuiltins();
		Function* F = M->getFunction( O.entry );
		if ( !F || F->isDeclaration() ) { fprintf( stderr, "no entry %s\n", O.entry.c_str() ); return 2; }
		{ auto o = std::make_shared<Obj>(); o->base = errnoAddr = gNext; gNext += 64; o->size = 4; o->kind = OK_GLOBAL; o->c.assign( 4, 0 ); globals[ o->base ] = o; }
		auto st = std::make_unique<State>();
		st->model = std::make_shared<Model>(); st->model->id = ++modelIds;
		// a tiny driver: run global constructors one after another, then the entry
		vector<std::pair<unsigned, Function*>> ctors;
		if ( auto* g = M->getNamedGlobal( "llvm.global_ctors" ) ) if ( auto* ca = dyn_cast<ConstantArray>( g->getInitializer() ) ) for ( auto& o : ca->operands() ) { auto* cs = cast<ConstantStruct>( o ); if ( auto* cf = dyn_cast<Function>( cs->getOperand( 1 )->stripPointerCasts() ) ) ctors.push_back( { (unsigned)cast<ConstantInt>( cs->getOperand( 0 ) )->getZExtValue(), cf } ); }
		std::stable_sort( ctors.begin(), ctors.end(), []( auto& a, auto& b ) { return a.first < b.first; } );
		int rc = 0;
		try {
			vector<Val> noargs;
			for ( auto& [ p, cf ] : ctors ) {
				work.clear(); uint64_t p0 = paths; auto keep = std::make_unique<State>( *st ); (void)keep;
				enter( *st, fn( cf ), noargs, nullptr );
				try { for ( ;; ) { State* sp = st.get(); if ( sp->st.size() == 1 ) { Frame& f = sp->st.back(); DI& d = f.f->bbs[ f.bb ].ins[ f.pc ]; if ( d.op == Instruction::Ret ) { popFrame( *sp ); break; } } step( *sp ); if ( !work.empty() ) throw Unsupported( "fork in a static initialiser" ); } }
				catch ( TermPath& ) { throw Unsupported( "static initialiser failed" ); }
				paths = p0;
			}
			insts = 0; st->insts = 0;
			enter( *st, fn( F ), noargs, nullptr );
			work.push_back( std::move( st ) );
			run();
		}
		catch ( Unsupported& u ) { unsup[ string( "setup: " ) + u.what() ]++; }
		string j = "{\n";
		auto num = [&]( const char* k, double v ) { char b[ 64 ]; if ( v == (double)(long long)v ) snprintf( b, 64, "%lld", (long long)v ); else snprintf( b, 64, "%.4f", v ); j += string( "\"" ) + k + "\":" + b + ",\n"; };
		j += "\"entry\":" + esc( O.entry ) + ",\n";
		num( "paths", paths ); num( "error_paths", errPaths ); num( "infeasible", infeasible ); num( "instructions", insts ); num( "forks", forks ); num( "branches", branches ); num( "asserts", asserts ); num( "assert_queries", assertQueries ); num( "assumes", assumes );
		num( "queries", SV->queries ); num( "solver_calls", SV->solverCalls ); num( "cache_hits", SV->cacheHits ); num( "unknown", SV->nUnknown ); num( "solver_s", SV->solverTime ); num( "max_query_s", SV->maxTime ); num( "wall_s", now() - tStart ); num( "symbolic_vars", X.vars.size() ); num( "pending", work.size() );
		bool exhausted = !timedOut && work.empty() && unsup.empty();
		j += string( "\"exhausted\":" ) + ( exhausted ? "true" : "false" ) + ",\n\"timed_out\":" + ( timedOut ? "true" : "false" ) + ",\n";
		j += "\"unsupported\":{"; bool fst = true; for ( auto& [ k, v ] : unsup ) { j += ( fst ? "" : "," ) + esc( k ) + ":" + std::to_string( v ); fst = false; } j += "},\n";
		j += "\"assumptions\":["; fst = true; for ( auto& a : assumptions ) { j += ( fst ? "" : "," ) + esc( a ); fst = false; } j += "],\n";
		j += "\"reach\":{"; fst = true; for ( auto& [ k, v ] : reach ) { j += ( fst ? "" : "," ) + esc( k ) + ":{\"count\":" + std::to_string( v.first ) + ",\"inputs\":" + inputsJson( v.second ) + "}"; fst = false; } j += "},\n";
		j += "\"violations\":["; fst = true; for ( auto& v : viols ) { j += string( fst ? "" : "," ) + "{\"kind\":" + esc( v.kind ) + ",\"msg\":" + esc( v.msg ) + ",\"loc\":" + esc( v.loc ) + ",\"inputs\":" + inputsJson( v ) + "}"; fst = false; } j += "],\n";
		j += "\"functions\":["; fst = true; std::set<string> names; auto inRepo = []( const DISubprogram* sp ) { return sp && sp->getFile() && ( sp->getFile()->getFilename().contains( "/xo/" ) || sp->getFile()->getDirectory().contains( "/repo/xo" ) ) && !sp->getFile()->getFilename().contains( "/harness/" ); };
		for ( auto& [ F2, f ] : fns ) if ( f->hits ) {
			if ( inRepo( f->F->getSubprogram() ) ) names.insert( demangle( f->name ) );
			for ( auto& b : *f->F ) for ( auto& i : b ) for ( const DILocation* dl = i.getDebugLoc().get(); dl; dl = dl->getInlinedAt() ) if ( auto* sp = dl->getScope()->getSubprogram() ) if ( sp != f->F->getSubprogram() && inRepo( sp ) ) names.insert( demangle( sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str() ) );
		}
		if ( const char* cov = getenv( "XOSYM_COV" ) ) { // lines of the repository: reached by a path or not
			std::map<string, std::map<unsigned, bool>> lines;
			for ( auto& [ F2, f ] : fns ) if ( !f->decoded ) { if ( inRepo( f->F->getSubprogram() ) ) for ( auto& b : *f->F ) for ( auto& i : b ) if ( auto* dl = i.getDebugLoc().get(); dl && dl->getLine() && inRepo( dl->getScope()->getSubprogram() ) ) lines[ dl->getFilename().str() ][ dl->getLine() ]; } else for ( auto& b : f->bbs ) for ( auto& d : b.ins ) if ( d.I && d.op != Instruction::PHI ) for ( const DILocation* dl = d.I->getDebugLoc().get(); dl; dl = dl->getInlinedAt() ) if ( auto* sp = dl->getScope()->getSubprogram() ) if ( inRepo( sp ) && dl->getLine() ) lines[ dl->getFilename().str() ][ dl->getLine() ] |= d.hit;
			if ( FILE* o = fopen( ( string( cov ) + "/" + O.entry + "-" + std::to_string( getpid() ) ).c_str(), "w" ) ) { for ( auto& [ n, l ] : lines ) for ( auto& [ k, h ] : l ) fprintf( o, "%s %u %d\n", n.c_str(), k, (int)h ); fclose( o ); }
		}
		for ( auto& n : names ) { j += ( fst ? "" : "," ) + esc( n.substr( 0, 160 ) ); fst = false; } j += "]\n}\n";
		if ( O.out.empty() ) fputs( j.c_str(), stdout ); else { FILE* f = fopen( O.out.c_str(), "w" ); if ( !f ) return 2; fputs( j.c_str(), f ); fclose( f ); }
		return rc;
	}
