// xosym: a bounded symbolic executor for LLVM IR (C++ subset incl. exceptions), deciding branches and assertions with Z3.
#include <unistd.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include "solver.h"
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
#include <cxxabi.h>
#include <unordered_set>

using namespace llvm;
using std::string; using std::vector;

Exprs X;
static Solver* SV;
static uint64_t modelIds = 0;

struct Val { E e = nullptr; std::shared_ptr<vector<Val>> agg; Val() {} Val( E x ) : e( x ) {} };

struct Obj { uint64_t base = 0, size = 0; uint8_t kind = 0; bool ro = false; vector<uint8_t> c; vector<E> s; };
enum { OK_GLOBAL, OK_STACK, OK_HEAP_NEW, OK_HEAP_NEWARR, OK_HEAP_MALLOC, OK_EXC };

struct Opnd { int reg = -1; Val c; };
struct DI {
	Instruction* I = nullptr; bool hit = false; unsigned op = 0; int dst = -1; vector<Opnd> ops; int s0 = -1, s1 = -1; unsigned w = 0; Type* ty = nullptr;
	// gep
	uint64_t off = 0; vector<std::pair<Opnd, int64_t>> idx;
	// phi
	vector<std::pair<int, Opnd>> inc;
	// switch
	vector<std::pair<u128, int>> cases;
	// call
	struct Fn* callee = nullptr; bool isInvoke = false;
};
struct BB { vector<DI> ins; BasicBlock* b; };
struct Fn { Function* F = nullptr; string name; int builtin = -1; bool decoded = false; vector<BB> bbs; int nregs = 0; vector<int> args; uint64_t addr = 0; uint64_t hits = 0; bool repo = false; string file; };

struct Frame { Fn* f; vector<Val> r; int bb = 0, prev = -1; size_t pc = 0; vector<uint64_t> allocas; vector<Val> va; int retDst = -1; int normal = -1, unwind = -1; };
struct Input { string name; char kind; vector<E> v; };
struct Exc { uint64_t addr; uint64_t ti; };
struct State {
	vector<Frame> st;
	std::map<uint64_t, std::shared_ptr<Obj>> mem;
	vector<E> pc; std::unordered_set<E> pcs;
	std::shared_ptr<Model> model;
	std::map<uint32_t, string> rmodel;
	vector<Input> inputs;
	uint64_t brk = 0x100000000ull;
	std::map<uint64_t, uint64_t> excs; // exception object -> typeinfo
	vector<uint64_t> caught;
	Exc inflight{ 0, 0 };
	uint64_t insts = 0; uint32_t nvars = 0;
	vector<E> outs;
	std::unordered_map<E, E> known;
	std::set<string> reached;
	vector<std::tuple<string, E, E, E>> apps; // real-mode function applications on this path
	int depth = 0;
	vector<string> notes;
	string context;
};

struct Opts {
	string bc, entry, out, concrete, smt; bool real = false, div0 = false; double maxTime = 600; uint64_t maxInsts = 20000000; uint64_t maxPaths = 1000000000; unsigned solverMs = 60000;
	std::map<string, int64_t> params; unsigned maxViol = 6; bool verbose = false; unsigned maxIteObj = 1024;
};
static Opts O;

struct Violation { string kind, msg, loc; vector<Input> in; std::shared_ptr<Model> m; std::map<uint32_t, string> rm; string known; };

struct TermPath {}; // path ends (after error/infeasible)
struct ForkRetry {}; // unused

struct Engine {
	LLVMContext lctx; std::unique_ptr<Module> M; const DataLayout* DL;
	std::unordered_map<const Function*, Fn*> fns; std::unordered_map<uint64_t, Fn*> fnByAddr;
	std::unordered_map<const GlobalVariable*, uint64_t> gaddr; std::unordered_map<uint64_t, const GlobalVariable*> gByAddr;
	std::map<uint64_t, std::shared_ptr<Obj>> globals;
	vector<std::unique_ptr<State>> work;
	State* cur = nullptr;
	vector<Violation> viols; std::map<string, int> violCount;
	std::map<string, std::pair<uint64_t, Violation>> reach; std::map<string, Violation> knowns;
	uint64_t paths = 0, infeasible = 0, insts = 0, forks = 0, branches = 0, asserts = 0, assertQueries = 0, errPaths = 0, assumes = 0;
	std::map<string, int> unsup; bool timedOut = false;
	std::set<string> assumptions;
	double tStart = 0;
	uint64_t fnNext = 0x10000, gNext = 0x1000000;
	std::map<std::pair<int, E>, E> rfun; // real-mode function applications
	vector<vector<uint8_t>> conc; size_t concPos = 0;

	// ---------------------------------------------------------------- helpers
	unsigned bits( Type* t ) {
		if ( t->isIntegerTy() ) return t->getIntegerBitWidth();
		if ( t->isPointerTy() ) return 64;
		if ( t->isDoubleTy() ) return 64; if ( t->isFloatTy() ) return 32;
		if ( t->isX86_FP80Ty() ) throw Unsupported( "x86_fp80" );
		string s; raw_string_ostream os( s ); t->print( os );
		throw Unsupported( "type " + s );
	}
	Val zero( Type* t ) {
		if ( auto* st = dyn_cast<StructType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); for ( auto* x : st->elements() ) v.agg->push_back( zero( x ) ); return v; }
		if ( auto* at = dyn_cast<ArrayType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); for ( uint64_t i = 0; i < at->getNumElements(); ++i ) v.agg->push_back( zero( at->getElementType() ) ); return v; }
		if ( auto* vt = dyn_cast<FixedVectorType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); for ( uint64_t i = 0; i < vt->getNumElements(); ++i ) v.agg->push_back( zero( vt->getElementType() ) ); return v; }
		if ( t->isX86_FP80Ty() ) return X.C( 80, 0 );
		return X.C( bits( t ), 0 );
	}
	Fn* fn( const Function* F ) {
		auto it = fns.find( F ); if ( it != fns.end() ) return it->second;
		Fn* f = new Fn; f->F = const_cast<Function*>( F ); f->name = F->getName().str(); f->addr = fnNext; fnNext += 16; fnByAddr[ f->addr ] = f; fns[ F ] = f;
		if ( auto* sp = F->getSubprogram() ) {
			f->file = ( sp->getFile() ? ( sp->getFile()->getFilename().startswith( "/" ) ? sp->getFile()->getFilename().str() : sp->getFile()->getDirectory().str() + "/" + sp->getFile()->getFilename().str() ) : "" );
			f->repo = f->file.find( "/repo/xo/" ) != string::npos || f->file.find( "/xo/" ) != string::npos;
		}
		return f;
	}
	uint64_t globalAddr( const GlobalVariable* g ) {
		auto it = gaddr.find( g ); if ( it != gaddr.end() ) return it->second;
		uint64_t size = g->getValueType()->isSized() ? DL->getTypeAllocSize( g->getValueType() ).getFixedValue() : 64;
		bool ext = !g->hasInitializer();
		bool ti = ext && g->getName().startswith( "_ZTI" ); // type info of the standard library: supply the name
		if ( ext && size < 64 ) size = 64;
		if ( ti ) size = 32 + g->getName().size();
		uint64_t al = std::max<uint64_t>( 16, g->getAlign() ? g->getAlign()->value() : 16 );
		uint64_t a = ( gNext + al - 1 ) / al * al; gNext = a + size + 64;
		gaddr[ g ] = a; gByAddr[ a ] = g;
		auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->kind = OK_GLOBAL; o->ro = g->isConstant(); o->c.assign( size, 0 );
		globals[ a ] = o;
		if ( !ext ) { initGlobal( *o, 0, g->getInitializer() ); }
		if ( ti ) { uint64_t p = a + 32; memcpy( &o->c[ 8 ], &p, 8 ); auto n = g->getName().drop_front( 4 ); memcpy( &o->c[ 32 ], n.data(), n.size() ); }
		return a;
	}
	void initGlobal( Obj& o, uint64_t off, const Constant* c ) {
		Type* t = c->getType();
		if ( isa<ConstantAggregateZero>( c ) || isa<UndefValue>( c ) || c->isNullValue() ) return;
		if ( auto* ds = dyn_cast<ConstantDataSequential>( c ) ) {
			uint64_t es = DL->getTypeAllocSize( ds->getElementType() ).getFixedValue();
			StringRef raw = ds->getRawDataValues();
			memcpy( &o.c[ off ], raw.data(), raw.size() ); (void)es; return;
		}
		if ( auto* st = dyn_cast<StructType>( t ) ) {
			auto* sl = DL->getStructLayout( st );
			for ( unsigned i = 0; i < st->getNumElements(); ++i ) initGlobal( o, off + sl->getElementOffset( i ).getFixedValue(), cast<Constant>( c->getOperand( i ) ) );
			return;
		}
		if ( auto* at = dyn_cast<ArrayType>( t ) ) {
			uint64_t es = DL->getTypeAllocSize( at->getElementType() ).getFixedValue();
			for ( unsigned i = 0; i < at->getNumElements(); ++i ) initGlobal( o, off + i * es, cast<Constant>( c->getOperand( i ) ) );
			return;
		}
		if ( auto* vt = dyn_cast<FixedVectorType>( t ) ) {
			uint64_t es = DL->getTypeAllocSize( vt->getElementType() ).getFixedValue();
			for ( unsigned i = 0; i < vt->getNumElements(); ++i ) initGlobal( o, off + i * es, c->getAggregateElement( i ) );
			return;
		}
		if ( t->isX86_FP80Ty() ) return;
		Val v = constant( c );
		writeObj( o, off, v.e );
	}
	Val constant( const Constant* c ) {
		Type* t = c->getType();
		if ( auto* ci = dyn_cast<ConstantInt>( c ) ) {
			if ( ci->getBitWidth() > 128 ) throw Unsupported( "wide integer constant" );
			u128 v = ci->getBitWidth() <= 64 ? (u128)ci->getZExtValue() : ( ( (u128)ci->getValue().getRawData()[ 1 ] << 64 ) | ci->getValue().getRawData()[ 0 ] );
			return X.C( ci->getBitWidth(), v );
		}
		if ( auto* cf = dyn_cast<ConstantFP>( c ) ) {
			if ( t->isX86_FP80Ty() ) return X.C( 80, 0 );
			return X.C( bits( t ), cf->getValueAPF().bitcastToAPInt().getZExtValue() );
		}
		if ( isa<ConstantPointerNull>( c ) || isa<ConstantAggregateZero>( c ) || isa<UndefValue>( c ) ) return zero( t );
		if ( auto* gv = dyn_cast<GlobalVariable>( c ) ) return X.C( 64, globalAddr( gv ) );
		if ( auto* f = dyn_cast<Function>( c ) ) return X.C( 64, fn( f )->addr );
		if ( auto* ga = dyn_cast<GlobalAlias>( c ) ) return constant( ga->getAliasee() );
		if ( auto* ds = dyn_cast<ConstantDataSequential>( c ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); for ( unsigned i = 0; i < ds->getNumElements(); ++i ) v.agg->push_back( constant( ds->getElementAsConstant( i ) ) ); return v; }
		if ( isa<ConstantAggregate>( c ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); for ( unsigned i = 0; i < c->getNumOperands(); ++i ) v.agg->push_back( constant( cast<Constant>( c->getOperand( i ) ) ) ); return v; }
		if ( auto* ce = dyn_cast<ConstantExpr>( c ) ) {
			switch ( ce->getOpcode() ) {
			case Instruction::GetElementPtr: {
				APInt off( 64, 0 );
				if ( !cast<GEPOperator>( ce )->accumulateConstantOffset( *DL, off ) ) throw Unsupported( "constant gep" );
				return X.Add( constant( ce->getOperand( 0 ) ).e, X.C( 64, off.getZExtValue() ) );
			}
			case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant( ce->getOperand( 0 ) );
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { E e = constant( ce->getOperand( 0 ) ).e; unsigned w = bits( t ); return w < e->w ? X.Extract( e, 0, w ) : X.ZExt( e, w ); }
			case Instruction::Add: return X.Add( constant( ce->getOperand( 0 ) ).e, constant( ce->getOperand( 1 ) ).e );
			case Instruction::Sub: return X.Sub( constant( ce->getOperand( 0 ) ).e, constant( ce->getOperand( 1 ) ).e );
			case Instruction::ICmp: return icmp( cast<CmpInst>( ce->getAsInstruction() )->getPredicate(), constant( ce->getOperand( 0 ) ).e, constant( ce->getOperand( 1 ) ).e );
			default: break;
			}
		}
		string s; raw_string_ostream os( s ); c->print( os );
		throw Unsupported( "constant " + s.substr( 0, 100 ) );
	}
	E icmp( CmpInst::Predicate p, E a, E b ) {
		switch ( p ) {
		case CmpInst::ICMP_EQ: return X.Eq( a, b ); case CmpInst::ICMP_NE: return X.Not( X.Eq( a, b ) );
		case CmpInst::ICMP_ULT: return X.Ult( a, b ); case CmpInst::ICMP_ULE: return X.Ule( a, b );
		case CmpInst::ICMP_UGT: return X.Ult( b, a ); case CmpInst::ICMP_UGE: return X.Ule( b, a );
		case CmpInst::ICMP_SLT: return X.Slt( a, b ); case CmpInst::ICMP_SLE: return X.Sle( a, b );
		case CmpInst::ICMP_SGT: return X.Slt( b, a ); case CmpInst::ICMP_SGE: return X.Sle( b, a );
		default: throw Unsupported( "icmp" );
		}
	}
	// ---------------------------------------------------------------- memory
	static void writeObj( Obj& o, uint64_t off, E e ) {
		unsigned n = ( e->w + 7 ) / 8;
		if ( e->w % 8 ) e = X.ZExt( e, n * 8 );
		if ( e->k == CONST ) {
			for ( unsigned i = 0; i < n; ++i ) o.c[ off + i ] = (uint8_t)( e->val >> ( 8 * i ) );
			if ( !o.s.empty() ) for ( unsigned i = 0; i < n; ++i ) o.s[ off + i ] = nullptr;
			return;
		}
		if ( o.s.empty() ) o.s.assign( o.size, nullptr );
		for ( unsigned i = 0; i < n; ++i ) {
			E b = X.Extract( e, 8 * i, 8 );
			if ( b->k == CONST ) { o.c[ off + i ] = (uint8_t)b->val; o.s[ off + i ] = nullptr; } else o.s[ off + i ] = b;
		}
	}
	static E readByte( const Obj& o, uint64_t off ) { if ( !o.s.empty() && o.s[ off ] ) return o.s[ off ]; return X.C( 8, o.c[ off ] ); }
	static E readObj( const Obj& o, uint64_t off, unsigned w ) {
		unsigned n = ( w + 7 ) / 8;
		bool conc = o.s.empty();
		if ( !conc ) { conc = true; for ( unsigned i = 0; i < n; ++i ) if ( o.s[ off + i ] ) { conc = false; break; } }
		if ( conc ) { u128 v = 0; for ( unsigned i = 0; i < n; ++i ) v |= (u128)o.c[ off + i ] << ( 8 * i ); return X.C( w, v ); }
		E b0 = o.s[ off ];
		if ( b0 && b0->k == EXTRACT && b0->val == 0 && b0->a->w == n * 8 ) {
			bool all = true;
			for ( unsigned i = 1; i < n; ++i ) { E b = o.s[ off + i ]; if ( !b || b->k != EXTRACT || b->a != b0->a || b->val != 8 * i ) { all = false; break; } }
			if ( all ) return w == n * 8 ? b0->a : X.Extract( b0->a, 0, w );
		}
		E r = readByte( o, off );
		for ( unsigned i = 1; i < n; ++i ) r = X.Concat( readByte( o, off + i ), r );
		return w == n * 8 ? r : X.Extract( r, 0, w );
	}
	const Obj* find( State& s, uint64_t a ) {
		auto it = s.mem.upper_bound( a );
		if ( it != s.mem.begin() ) { --it; if ( a >= it->first && a <= it->first + it->second->size ) return it->second.get(); }
		auto g = globals.upper_bound( a );
		if ( g != globals.begin() ) { --g; if ( a >= g->first && a <= g->first + g->second->size ) return g->second.get(); }
		return nullptr;
	}
	Obj* forWrite( State& s, const Obj* o ) {
		auto it = s.mem.find( o->base );
		if ( it == s.mem.end() ) { auto n = std::make_shared<Obj>( *o ); s.mem[ o->base ] = n; return n.get(); }
		if ( it->second.use_count() > 1 ) it->second = std::make_shared<Obj>( *it->second );
		return it->second.get();
	}
	Obj* alloc( State& s, uint64_t size, uint8_t kind, uint64_t align = 16 ) {
		if ( align < 16 ) align = 16;
		uint64_t a = ( s.brk + align - 1 ) / align * align; s.brk = a + size + 48;
		auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->kind = kind; o->c.assign( size, kind == OK_STACK ? 0xFE : 0xBE );
		Obj* p = o.get(); s.mem[ a ] = std::move( o ); return p;
	}
	// ---------------------------------------------------------------- solver interface on states
	bool evalModel( State& s, E e ) { return evalE( e, *s.model ) != 0; }
	void patch( State& s, const Solver::Entry* en ) {
		if ( !en ) return;
		if ( !en->m.empty() ) {
			auto m = std::make_shared<Model>( *s.model ); m->id = ++modelIds;
			for ( auto& [ v, x ] : en->m ) { if ( v >= m->v.size() ) m->v.resize( v + 1, 0 ); m->v[ v ] = x; }
			s.model = m;
		}
		for ( auto& [ v, x ] : en->rm ) s.rmodel[ v ] = x;
	}
	void addC( State& s, E e ) {
		if ( e->k == CONST ) return;
		if ( e->k == AND && e->w == 1 ) { addC( s, e->a ); addC( s, e->b ); return; }
		if ( s.pcs.insert( e ).second ) {
			s.pc.push_back( e );
			if ( e->k == EQ && e->b->k == CONST ) s.known[ e->a ] = e->b;
			if ( e->k == EQ && e->b->k == CONST && e->a->k == ZEXT ) {}
		}
	}
	bool hrConstraints( State& s, E e ) { return e->hr; }
	// feasibility of cond under s; entry for patching (null if the current model already satisfies it)
	Res may( State& s, E cond, const Solver::Entry** en ) {
		*en = nullptr;
		if ( cond->k == CONST ) return cond->val ? SAT : UNSAT;
		if ( s.pcs.count( cond ) ) return SAT;
		if ( s.pcs.count( X.Not( cond ) ) ) return UNSAT;
		if ( !cond->hr && evalModel( s, cond ) ) return SAT;
		Res r = SV->check( s.pc, cond, en );
		if ( r == UNKNOWN ) { unsup[ "solver gave no answer (" + where( s ) + ")" ]++; }
		return r;
	}
	// returns: 1 true only, 0 false only, 2 both (child state for the other outcome is returned in other)
	// After the call s is constrained to the returned side (for 2: to true); other is constrained to false.
	int branch( State& s, E cond, std::unique_ptr<State>& other ) {
		if ( cond->k == CONST ) return cond->val ? 1 : 0;
		++branches;
		E n = X.Not( cond );
		if ( s.pcs.count( cond ) ) return 1;
		if ( s.pcs.count( n ) ) return 0;
		const Solver::Entry *et = nullptr, *ef = nullptr; Res rt, rf;
		if ( !cond->hr ) {
			if ( evalModel( s, cond ) ) { rt = SAT; rf = may( s, n, &ef ); } else { rf = SAT; rt = may( s, cond, &et ); }
		}
		else { rt = may( s, cond, &et ); rf = may( s, n, &ef ); }
		if ( rt == SAT && rf == SAT ) {
			++forks;
			other = std::make_unique<State>( s );
			addC( *other, n ); if ( ef ) patch( *other, ef );
			addC( s, cond ); if ( et ) patch( s, et );
			return 2;
		}
		if ( rt == SAT ) { if ( rf == UNKNOWN ) addC( s, cond ); if ( et ) patch( s, et ); return 1; }
		if ( rf == SAT ) { if ( rt == UNKNOWN ) addC( s, n ); if ( ef ) patch( s, ef ); return 0; }
		++infeasible; throw TermPath();
	}
	// make e concrete on this path; other values are explored by forked states that re-execute the current instruction
	uint64_t concretize( State& s, E e ) {
		if ( e->k == CONST ) return (uint64_t)e->val;
		auto it = s.known.find( e ); if ( it != s.known.end() ) return (uint64_t)it->second->val;
		if ( e->hr ) { // integer derived from reals: ask the solver for a value through a fresh variable
			E nv = X.var( e->w, "rtoi" ); E c = X.raw( EQ, 1, e, nv );
			const Solver::Entry* en = nullptr; Res r = SV->check( s.pc, c, &en );
			if ( r != SAT ) { if ( r == UNKNOWN ) unsup[ "solver gave no answer (" + where( s ) + ")" ]++; throw TermPath(); }
			u128 v = 0; for ( auto& [ id, x ] : en->m ) if ( id == nv->val ) v = x;
			return concretizeTo( s, e, v );
		}
		return concretizeTo( s, e, evalE( e, *s.model ) );
	}
	uint64_t concretizeTo( State& s, E e, u128 v ) {
		E c = X.Eq( e, X.C( e->w, v ) );
		const Solver::Entry* en; Res r = may( s, X.Not( c ), &en );
		if ( r == SAT ) { auto o = std::make_unique<State>( s ); addC( *o, X.Not( c ) ); if ( en ) patch( *o, en ); ++forks; work.push_back( std::move( o ) ); }
		addC( s, c ); s.known[ e ] = X.C( e->w, v );
		return (uint64_t)v;
	}
	// real mode: the integer that x rounds to (mode 1 trunc, 2 floor, 3 ceil, 4 round half away from zero), by case distinction;
	// the other integers are explored by forked states that re-execute the current instruction
	E realIs( E x, double n, int mode ) {
		auto c = [&]( double v ) { return X.cr( x->w, v ); };
		auto in = [&]( E lo, bool ls, E hi, bool hs ) { return X.And( ls ? X.RLt( lo, x ) : X.RLe( lo, x ), hs ? X.RLt( x, hi ) : X.RLe( x, hi ) ); };
		switch ( mode ) {
		case 2: return in( c( n ), false, c( n + 1 ), true );
		case 3: return in( c( n - 1 ), true, c( n ), false );
		case 4: return n > 0 ? in( c( n - 0.5 ), false, c( n + 0.5 ), true ) : n < 0 ? in( c( n - 0.5 ), true, c( n + 0.5 ), false ) : in( c( -0.5 ), true, c( 0.5 ), true );
		default: return n > 0 ? in( c( n ), false, c( n + 1 ), true ) : n < 0 ? in( c( n - 1 ), true, c( n ), false ) : in( c( -1 ), true, c( 1 ), true );
		}
	}
	double realInt( State& s, E x, int mode ) {
		E key = X.raw( RTOI, 64, x, 0, 0, mode );
		auto it = s.known.find( key ); if ( it != s.known.end() ) return (double)(int64_t)it->second->val;
		E nv = X.var( x->w, "rint", true );
		const Solver::Entry* en = nullptr; Res r = SV->check( s.pc, X.REq( nv, x ), &en );
		if ( r == UNKNOWN ) { unsup[ "solver gave no answer (" + where( s ) + ")" ]++; throw TermPath(); }
		if ( r == UNSAT ) { ++infeasible; throw TermPath(); }
		double v = 0; for ( auto& [ id, t ] : en->rm ) if ( id == nv->val ) v = strtod( t.c_str(), nullptr );
		if ( !( std::fabs( v ) < 1e15 ) ) throw Unsupported( "real-mode rounding of an unbounded value" );
		double n0 = mode == 2 ? floor( v ) : mode == 3 ? ceil( v ) : mode == 4 ? round( v ) : trunc( v ), n = n0; Res g = UNSAT;
		for ( double d : { 0.0, 1.0, -1.0 } ) { n = n0 + d; g = may( s, realIs( x, n, mode ), &en ); if ( g == SAT ) break; }
		if ( g != SAT ) throw Unsupported( "real-mode rounding" );
		auto mine = en; E c = realIs( x, n, mode ); const Solver::Entry* eo = nullptr;
		if ( may( s, X.Not( c ), &eo ) != UNSAT ) { auto o = std::make_unique<State>( s ); addC( *o, X.Not( c ) ); if ( eo ) patch( *o, eo ); ++forks; work.push_back( std::move( o ) ); }
		addC( s, c ); if ( mine ) patch( s, mine ); s.known[ key ] = X.C( 64, (u128)(i128)n );
		return n;
	}
	// ---------------------------------------------------------------- errors
	string where( State& s, int maxFrames = 6 ) {
		string r; int n = 0;
		for ( int i = (int)s.st.size() - 1; i >= 0 && n < maxFrames; --i ) {
			Frame& f = s.st[ i ];
			if ( f.bb < (int)f.f->bbs.size() && f.pc < f.f->bbs[ f.bb ].ins.size() ) {
				Instruction* I = f.f->bbs[ f.bb ].ins[ f.pc ].I;
				if ( I ) {
					if ( auto* dl = I->getDebugLoc().get() ) {
						for ( const DILocation* d = dl; d && n < maxFrames; d = d->getInlinedAt() ) {
							string file = d->getFilename().str();
							if ( file.find( "/usr/" ) != string::npos ) continue;
							size_t p = file.rfind( "/xo/" ); if ( p != string::npos ) file = file.substr( p + 1 ); else { p = file.rfind( '/' ); if ( p != string::npos ) file = file.substr( p + 1 ); }
							r += ( r.empty() ? "" : " < " ) + file + ":" + std::to_string( d->getLine() ); ++n;
						}
					}
				}
			}
		}
		return r.empty() ? ( s.st.empty() ? "?" : s.st.back().f->name ) : r;
	}
	void violation( State& s, const string& kind, const string& msg ) {
		string loc = where( s );
		string key = kind + "|" + msg + "|" + ( kind == "assert" ? "" : loc );
		if ( violCount[ key ]++ >= 1 ) return;
		Violation v{ kind, msg, loc, s.inputs, s.model, s.rmodel, "" };
		viols.push_back( v );
		if ( O.verbose ) fprintf( stderr, "VIOLATION %s: %s @ %s\n", kind.c_str(), msg.c_str(), loc.c_str() );
	}
	[[noreturn]] void error( State& s, const string& kind, const string& msg ) { violation( s, kind, msg ); ++errPaths; throw TermPath(); }

	// resolve an access of n bytes at address a; afterwards the access is in bounds of the returned object
	const Obj* access( State& s, E a, uint64_t n, E& off, bool write ) {
		const Obj* o;
		if ( a->k == CONST ) {
			uint64_t v = (uint64_t)a->val;
			o = find( s, v );
			if ( !o || v + n > o->base + o->size ) error( s, "memory", memMsg( s, o, v, n, write ) );
			if ( write && o->ro ) error( s, "memory", "write to read-only memory" );
			off = X.C( 64, v - o->base ); return o;
		}
		if ( a->hr ) return access( s, X.C( 64, concretize( s, a ) ), n, off, write );
		uint64_t v = (uint64_t)evalE( a, *s.model );
		o = find( s, v );
		if ( !o || v + n > o->base + o->size ) error( s, "memory", memMsg( s, o, v, n, write ) );
		E rel = X.Sub( a, X.C( 64, o->base ) );
		E inb = X.Ule( rel, X.C( 64, o->size - n ) );
		const Solver::Entry* en; E nb = X.Not( inb );
		Res r = may( s, nb, &en );
		if ( r == SAT ) { auto t = std::make_unique<State>( s ); addC( *t, nb ); if ( en ) patch( *t, en ); ++forks; work.push_back( std::move( t ) ); }
		addC( s, inb );
		if ( write && o->ro ) error( s, "memory", "write to read-only memory" );
		off = rel; return o;
	}
	string memMsg( State& s, const Obj* o, uint64_t v, uint64_t n, bool write ) {
		string r = write ? "invalid write of " : "invalid read of "; r += std::to_string( n ) + " bytes";
		if ( v < 4096 ) r += " through a null pointer";
		else if ( o ) r += " outside its object"; else r += " at a wild or freed address";
		return r;
	}
	static unsigned tz( E e ) {
		switch ( e->k ) {
		case CONST: { if ( e->val == 0 ) return 64; unsigned n = 0; while ( !( ( e->val >> n ) & 1 ) ) ++n; return n; }
		case ADD: case SUB: case OR: case XOR: return std::min( tz( e->a ), tz( e->b ) );
		case MUL: return std::min( 64u, tz( e->a ) + tz( e->b ) );
		case CONCAT: { unsigned l = tz( e->b ); return l >= e->b->w ? e->b->w + tz( e->a ) : l; }
		case ZEXT: case SEXT: { unsigned l = tz( e->a ); return l >= e->a->w ? 64 : l; }
		case ITE: return std::min( tz( e->b ), tz( e->c ) );
		case AND: return std::max( tz( e->a ), tz( e->b ) );
		default: return 0;
		}
	}
	E load( State& s, E a, unsigned w ) {
		uint64_t n = ( w + 7 ) / 8; E off; const Obj* o = access( s, a, n, off, false );
		if ( off->k == CONST ) return readObj( *o, (uint64_t)off->val, w );
		auto kn = s.known.find( off ); if ( kn != s.known.end() ) return readObj( *o, (uint64_t)kn->second->val, w );
		uint64_t st = 1ull << std::min( tz( off ), 6u );
		if ( ( o->size - n ) / st + 1 > O.maxIteObj ) return readObj( *o, concretize( s, off ), w );
		E r = nullptr;
		for ( uint64_t p = 0; p + n <= o->size; p += st ) {
			E c = X.Eq( off, X.C( 64, p ) );
			if ( c->k == CONST && !c->val ) continue;
			E v = readObj( *o, p, w ); r = r ? X.Ite( c, v, r ) : v;
		}
		if ( !r ) throw TermPath();
		return r;
	}
	void store( State& s, E a, E v ) {
		uint64_t n = ( v->w + 7 ) / 8; E off; const Obj* ro = access( s, a, n, off, true );
		if ( off->k != CONST ) { auto kn = s.known.find( off ); if ( kn != s.known.end() ) off = kn->second; }
		if ( off->k == CONST ) { writeObj( *forWrite( s, ro ), (uint64_t)off->val, v ); return; }
		uint64_t st = 1ull << std::min( tz( off ), 6u );
		if ( ( ro->size - n ) / st + 1 > 64 || v->real ) { uint64_t c = concretize( s, off ); writeObj( *forWrite( s, ro ), c, v ); return; }
		Obj* o = forWrite( s, ro );
		for ( uint64_t p = 0; p + n <= o->size; p += st ) {
			E c = X.Eq( off, X.C( 64, p ) );
			E old = readObj( *o, p, v->w % 8 ? n * 8 : v->w );
			writeObj( *o, p, X.Ite( c, v->w % 8 ? X.ZExt( v, n * 8 ) : v, old ) );
		}
	}
	Val loadT( State& s, E a, Type* t ) {
		if ( auto* st = dyn_cast<StructType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); auto* sl = DL->getStructLayout( st ); for ( unsigned i = 0; i < st->getNumElements(); ++i ) v.agg->push_back( loadT( s, X.Add( a, X.C( 64, sl->getElementOffset( i ).getFixedValue() ) ), st->getElementType( i ) ) ); return v; }
		if ( auto* at = dyn_cast<ArrayType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); uint64_t es = DL->getTypeAllocSize( at->getElementType() ).getFixedValue(); for ( unsigned i = 0; i < at->getNumElements(); ++i ) v.agg->push_back( loadT( s, X.Add( a, X.C( 64, i * es ) ), at->getElementType() ) ); return v; }
		if ( auto* vt = dyn_cast<FixedVectorType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); uint64_t es = DL->getTypeStoreSize( vt->getElementType() ).getFixedValue(); if ( vt->getElementType()->isIntegerTy( 1 ) ) throw Unsupported( "load of i1 vector" ); for ( unsigned i = 0; i < vt->getNumElements(); ++i ) v.agg->push_back( loadT( s, X.Add( a, X.C( 64, i * es ) ), vt->getElementType() ) ); return v; }
		if ( t->isX86_FP80Ty() ) throw Unsupported( "x86_fp80" );
		unsigned w = bits( t );
		if ( w > 128 ) throw Unsupported( "wide load" );
		return load( s, a, w );
	}
	void storeT( State& s, E a, Type* t, const Val& v ) {
		if ( auto* st = dyn_cast<StructType>( t ) ) { auto* sl = DL->getStructLayout( st ); for ( unsigned i = 0; i < st->getNumElements(); ++i ) storeT( s, X.Add( a, X.C( 64, sl->getElementOffset( i ).getFixedValue() ) ), st->getElementType( i ), ( *v.agg )[ i ] ); return; }
		if ( auto* at = dyn_cast<ArrayType>( t ) ) { uint64_t es = DL->getTypeAllocSize( at->getElementType() ).getFixedValue(); for ( unsigned i = 0; i < at->getNumElements(); ++i ) storeT( s, X.Add( a, X.C( 64, i * es ) ), at->getElementType(), ( *v.agg )[ i ] ); return; }
		if ( auto* vt = dyn_cast<FixedVectorType>( t ) ) { uint64_t es = DL->getTypeStoreSize( vt->getElementType() ).getFixedValue(); for ( unsigned i = 0; i < vt->getNumElements(); ++i ) storeT( s, X.Add( a, X.C( 64, i * es ) ), vt->getElementType(), ( *v.agg )[ i ] ); return; }
		store( s, a, v.e );
	}
	// flatten a value into bits / rebuild (for bitcasts between vectors and scalars)
	E flat( const Val& v ) { if ( !v.agg ) return v.e; E r = nullptr; for ( auto& x : *v.agg ) { E e = flat( x ); r = r ? X.Concat( e, r ) : e; } return r; }
	Val unflat( E e, Type* t ) {
		if ( auto* vt = dyn_cast<FixedVectorType>( t ) ) { Val v; v.agg = std::make_shared<vector<Val>>(); unsigned w = bits( vt->getElementType() ); for ( unsigned i = 0; i < vt->getNumElements(); ++i ) v.agg->push_back( X.Extract( e, i * w, w ) ); return v; }
		return e;
	}
	// ---------------------------------------------------------------- decoding
	void decode( Fn* f ) {
		if ( f->decoded ) return; f->decoded = true;
		std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, int> bbi;
		int n = 0;
		for ( auto& a : f->F->args() ) { reg[ &a ] = n; f->args.push_back( n++ ); }
		int k = 0; for ( auto& b : *f->F ) { bbi[ &b ] = k++; for ( auto& i : b ) if ( !i.getType()->isVoidTy() ) reg[ &i ] = n++; }
		f->nregs = n; f->bbs.resize( k );
		auto opnd = [&]( Value* v ) -> Opnd {
			Opnd o; auto it = reg.find( v );
			if ( it != reg.end() ) { o.reg = it->second; return o; }
			if ( auto* c = dyn_cast<Constant>( v ) ) { o.c = constant( c ); return o; }
			if ( isa<MetadataAsValue>( v ) || isa<InlineAsm>( v ) || isa<BasicBlock>( v ) ) return o;
			throw Unsupported( "operand" );
		};
		k = 0;
		for ( auto& b : *f->F ) {
			BB& bb = f->bbs[ k++ ]; bb.b = &b;
			for ( auto& i : b ) {
				if ( isa<DbgInfoIntrinsic>( i ) ) continue;
				DI d; d.I = &i; d.op = i.getOpcode(); d.ty = i.getType();
				if ( !i.getType()->isVoidTy() ) d.dst = reg[ &i ];
				try {
					switch ( d.op ) {
					case Instruction::PHI: { auto& p = cast<PHINode>( i ); for ( unsigned j = 0; j < p.getNumIncomingValues(); ++j ) d.inc.push_back( { bbi[ p.getIncomingBlock( j ) ], opnd( p.getIncomingValue( j ) ) } ); break; }
					case Instruction::Br: { auto& br = cast<BranchInst>( i ); d.s0 = bbi[ br.getSuccessor( 0 ) ]; if ( br.isConditional() ) { d.s1 = bbi[ br.getSuccessor( 1 ) ]; d.ops.push_back( opnd( br.getCondition() ) ); } break; }
					case Instruction::Switch: { auto& sw = cast<SwitchInst>( i ); d.ops.push_back( opnd( sw.getCondition() ) ); d.s0 = bbi[ sw.getDefaultDest() ]; for ( auto& c : sw.cases() ) d.cases.push_back( { constant( c.getCaseValue() ).e->val, bbi[ c.getCaseSuccessor() ] } ); break; }
					case Instruction::GetElementPtr: {
						auto& g = cast<GetElementPtrInst>( i ); d.ops.push_back( opnd( g.getPointerOperand() ) );
						if ( g.getType()->isVectorTy() ) throw Unsupported( "vector gep" );
						for ( auto gi = gep_type_begin( g ); gi != gep_type_end( g ); ++gi ) {
							if ( auto* st = gi.getStructTypeOrNull() ) { unsigned fi = cast<ConstantInt>( gi.getOperand() )->getZExtValue(); d.off += DL->getStructLayout( st )->getElementOffset( fi ).getFixedValue(); }
							else {
								int64_t es = DL->getTypeAllocSize( gi.getIndexedType() ).getFixedValue();
								if ( auto* ci = dyn_cast<ConstantInt>( gi.getOperand() ) ) d.off += ci->getSExtValue() * es;
								else d.idx.push_back( { opnd( gi.getOperand() ), es } );
							}
						}
						break;
					}
					case Instruction::Call: case Instruction::Invoke: {
						auto& cb = cast<CallBase>( i );
						for ( auto& a : cb.args() ) d.ops.push_back( opnd( a.get() ) );
						d.ops.push_back( opnd( cb.getCalledOperand() ) );
						if ( cb.isInlineAsm() ) { auto* ia = cast<InlineAsm>( cb.getCalledOperand() ); if ( !ia->getAsmString().empty() ) throw Unsupported( "inline asm" ); }
						Value* cv = cb.getCalledOperand()->stripPointerCastsAndAliases();
						if ( auto* cf = dyn_cast<Function>( cv ) ) d.callee = fn( cf );
						if ( d.op == Instruction::Invoke ) { auto& iv = cast<InvokeInst>( i ); d.isInvoke = true; d.s0 = bbi[ iv.getNormalDest() ]; d.s1 = bbi[ iv.getUnwindDest() ]; }
						break;
					}
					case Instruction::LandingPad: break;
					default: for ( auto& o : i.operands() ) d.ops.push_back( opnd( o.get() ) ); break;
					}
					if ( d.ty->isIntegerTy() || d.ty->isPointerTy() || d.ty->isFloatTy() || d.ty->isDoubleTy() ) d.w = bits( d.ty );
				}
				catch ( Unsupported& u ) { d.op = 9999; d.ops.clear(); unsupText[ d.I ] = u.what(); }
				bb.ins.push_back( std::move( d ) );
			}
		}
	}
	std::unordered_map<Instruction*, string> unsupText;

	const Val& get( Frame& f, const Opnd& o ) { return o.reg >= 0 ? f.r[ o.reg ] : o.c; }

	void jump( State& s, int to ) {
		Frame& f = s.st.back(); int from = f.bb; BB& bb = f.f->bbs[ to ];
		vector<std::pair<int, Val>> upd; size_t i = 0;
		for ( ; i < bb.ins.size() && bb.ins[ i ].op == Instruction::PHI; ++i ) {
			bool ok = false;
			for ( auto& [ b, o ] : bb.ins[ i ].inc ) if ( b == from ) { upd.push_back( { bb.ins[ i ].dst, get( f, o ) } ); ok = true; break; }
			if ( !ok ) throw Unsupported( "phi" );
		}
		for ( auto& [ r, v ] : upd ) f.r[ r ] = v;
		f.prev = from; f.bb = to; f.pc = i;
	}
	void popFrame( State& s ) { for ( uint64_t a : s.st.back().allocas ) s.mem.erase( a ); s.st.pop_back(); }

	void ret( State& s, const Val& v ) { // return from the current frame
		popFrame( s );
		if ( s.st.empty() ) { finish( s ); throw TermPath(); }
		finishCall( s, v );
	}
	void finishCall( State& s, const Val& v ) { // complete the call instruction at the top frame's pc
		Frame& f = s.st.back(); DI& d = f.f->bbs[ f.bb ].ins[ f.pc ];
		if ( d.dst >= 0 ) f.r[ d.dst ] = v;
		if ( d.isInvoke ) jump( s, d.s0 ); else ++f.pc;
	}
	void finish( State& s ) { ++paths; }

	// ---------------------------------------------------------------- exceptions
	bool tiMatches( uint64_t thrown, uint64_t want ) {
		if ( thrown == want ) return true;
		auto it = gByAddr.find( thrown ); if ( it == gByAddr.end() ) return false;
		const GlobalVariable* g = it->second;
		auto wt = gByAddr.find( want );
		if ( wt != gByAddr.end() && wt->second->getName() == g->getName() ) return true;
		if ( !g->hasInitializer() ) return false;
		auto* init = g->getInitializer();
		for ( unsigned i = 2; i < init->getNumOperands(); ++i ) {
			if ( auto* b = dyn_cast<GlobalVariable>( init->getOperand( i )->stripPointerCasts() ) )
				if ( b->getName().startswith( "_ZTI" ) && tiMatches( globalAddr( b ), want ) ) return true;
		}
		return false;
	}
	string tiName( uint64_t ti ) { auto it = gByAddr.find( ti ); return it == gByAddr.end() ? "?" : demangle( it->second->getName().str() ); }
	int typeId( uint64_t ti ) { return ti == 0 ? 1 : (int)( ti & 0x7fffffff ); }
	void throwExc( State& s, uint64_t addr, uint64_t ti ) {
		s.inflight = { addr, ti };
		string loc = where( s );
		// the frame on top is executing the throwing call
		while ( !s.st.empty() ) {
			Frame& f = s.st.back(); DI& d = f.f->bbs[ f.bb ].ins[ f.pc ];
			if ( d.isInvoke ) {
				auto* lp = cast<InvokeInst>( d.I )->getLandingPadInst();
				int sel = 0; bool take = lp->isCleanup();
				for ( unsigned i = 0; i < lp->getNumClauses(); ++i ) {
					Constant* c = lp->getClause( i );
					if ( lp->isCatch( i ) ) {
						uint64_t want = (uint64_t)constant( c ).e->val;
						if ( want == 0 || tiMatches( ti, want ) ) { sel = typeId( want ); take = true; break; }
					}
					else { // filter
						bool ok = false;
						if ( auto* ca = dyn_cast<ConstantArray>( c ) ) for ( auto& o : ca->operands() ) if ( tiMatches( ti, (uint64_t)constant( cast<Constant>( o ) ).e->val ) ) ok = true;
						if ( !ok ) { sel = -1; take = true; break; }
					}
				}
				if ( take ) {
					jump( s, d.s1 );
					Frame& g = s.st.back(); DI& l = g.f->bbs[ g.bb ].ins[ g.pc ];
					if ( l.op != Instruction::LandingPad ) throw Unsupported( "landingpad position" );
					Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back( X.C( 64, addr ) ); v.agg->push_back( X.C( 32, (uint32_t)sel ) );
					g.r[ l.dst ] = v; ++g.pc;
					return;
				}
			}
			popFrame( s );
		}
		Violation v{ "uncaught", "uncaught exception of type " + tiName( ti ), loc, s.inputs, s.model, s.rmodel, "" };
		string key = v.kind + v.msg + v.loc;
		if ( violCount[ key ]++ < 1 ) viols.push_back( v );
		++errPaths; throw TermPath();
	}

	// ---------------------------------------------------------------- calls
	void call( State& s, Fn* callee, vector<Val>& args, CallBase* cb ) {
		if ( callee->builtin == -1 ) callee->builtin = lookupBuiltin( callee );
		if ( callee->builtin > 0 ) { builtin( s, callee, args, cb ); return; }
		if ( callee->F->isDeclaration() ) throw Unsupported( "external function " + demangle( callee->name ) );
		enter( s, callee, args, cb );
	}
	void enter( State& s, Fn* callee, vector<Val>& args, CallBase* cb ) {
		decode( callee ); ++callee->hits;
		if ( s.st.size() > 400 ) error( s, "hang", "call depth exceeds 400 frames (runaway recursion)" );
		Frame nf; nf.f = callee; nf.r.resize( callee->nregs );
		size_t na = callee->args.size();
		for ( size_t i = 0; i < na && i < args.size(); ++i ) {
			if ( cb && i < cb->arg_size() && cb->isByValArgument( i ) ) {
				Type* t = cb->getParamByValType( i ); uint64_t n = DL->getTypeAllocSize( t ).getFixedValue();
				E off; uint64_t src = concretize( s, args[ i ].e );
				Obj* o = alloc( s, n, OK_STACK ); nf.allocas.push_back( o->base ); uint64_t nb = o->base;
				copyMem( s, nb, src, n );
				nf.r[ callee->args[ i ] ] = X.C( 64, nb );
			}
			else nf.r[ callee->args[ i ] ] = args[ i ];
		}
		for ( size_t i = na; i < args.size(); ++i ) nf.va.push_back( args[ i ] );
		s.st.push_back( std::move( nf ) );
		// entry block has no phis
	}
	void copyMem( State& s, uint64_t dst, uint64_t src, uint64_t n ) {
		if ( n == 0 ) return;
		E off; const Obj* so = access( s, X.C( 64, src ), n, off, false ); uint64_t sf = src - so->base;
		vector<uint8_t> c( so->c.begin() + sf, so->c.begin() + sf + n ); vector<E> sy; if ( !so->s.empty() ) sy.assign( so->s.begin() + sf, so->s.begin() + sf + n );
		const Obj* dr = access( s, X.C( 64, dst ), n, off, true ); Obj* d = forWrite( s, dr ); uint64_t df = dst - d->base;
		memcpy( &d->c[ df ], c.data(), n );
		bool any = false; for ( E e : sy ) if ( e ) any = true;
		if ( any && d->s.empty() ) d->s.assign( d->size, nullptr );
		if ( !d->s.empty() ) for ( uint64_t i = 0; i < n; ++i ) d->s[ df + i ] = any ? sy[ i ] : nullptr;
	}
	string cstr( State& s, E p ) {
		string r; uint64_t a = concretize( s, p );
		for ( ;; ) { E off; const Obj* o = access( s, X.C( 64, a ), 1, off, false ); E b = readByte( *o, a - o->base ); uint8_t c = (uint8_t)concretize( s, b ); if ( !c ) break; r += (char)c; ++a; }
		return r;
	}
	// true iff the NUL terminated string at p is fully concrete
	bool concreteStr( State& s, E p, string& r ) {
		if ( p->k != CONST ) return false;
		uint64_t a = (uint64_t)p->val;
		for ( ;; ) { const Obj* o = find( s, a ); if ( !o || a >= o->base + o->size ) return false; E b = readByte( *o, a - o->base ); if ( b->k != CONST ) return false; if ( !b->val ) return true; r += (char)b->val; ++a; }
	}
#include "builtins.inc"
#include "step.inc"
#include "report.inc"
};

static int realMain( int argc, char** argv ) {
	for ( int i = 1; i < argc; ++i ) {
		string a = argv[ i ]; auto nx = [&] { return string( argv[ ++i ] ); };
		if ( a == "--bc" ) O.bc = nx(); else if ( a == "--entry" ) O.entry = nx(); else if ( a == "--out" ) O.out = nx();
		else if ( a == "--fp" ) O.real = nx() == "real"; else if ( a == "--div0" ) O.div0 = true; else if ( a == "--max-time" ) O.maxTime = std::stod( nx() ); else if ( a == "--max-insts" ) O.maxInsts = std::stoull( nx() );
		else if ( a == "--max-paths" ) O.maxPaths = std::stoull( nx() ); else if ( a == "--solver-ms" ) O.solverMs = std::stoul( nx() ); else if ( a == "--concrete" ) O.concrete = nx();
		else if ( a == "--param" ) { string p = nx(); size_t e = p.find( '=' ); O.params[ p.substr( 0, e ) ] = std::stoll( p.substr( e + 1 ) ); }
		else if ( a == "-v" ) O.verbose = true; else if ( a == "--dump" ) O.smt = nx(); else if ( a == "--max-viol" ) O.maxViol = std::stoul( nx() );
		else { fprintf( stderr, "unknown option %s\n", a.c_str() ); return 2; }
	}
	Solver sv; SV = &sv; sv.timeoutMs = O.solverMs; sv.dumpDir = O.smt;
	Engine eng;
	return eng.main();
}
struct Args { int c; char** v; int r; };
int main( int argc, char** argv ) {
	Args a{ argc, argv, 2 };
	pthread_attr_t at; pthread_attr_init( &at ); pthread_attr_setstacksize( &at, 1ull << 30 );
	pthread_t t; if ( pthread_create( &t, &at, []( void* p ) -> void* { Args* a = (Args*)p;
		try { a->r = realMain( a->c, a->v ); }
		catch ( z3::exception& e ) { fprintf( stderr, "xosym: z3: %s\n", e.msg() ); a->r = 2; }
		catch ( std::exception& e ) { fprintf( stderr, "xosym: %s\n", e.what() ); a->r = 2; } return nullptr; }, &a ) ) return 2;
	pthread_join( t, nullptr );
	fflush( stdout ); _exit( a.r );
}
