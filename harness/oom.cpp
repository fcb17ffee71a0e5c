// C12: each allocation of each operation fails once (or it and all later ones do).
#include "ops.h"
#include "track.h"

#include <new>

using namespace lib;
using ops::Obj;
using ops::Ops;
using vf::Rng;

std::vector<std::unique_ptr<Ops>>& ops::all()
{
    static std::vector<std::unique_ptr<Ops>> v;
    return v;
}

static std::vector<const Ops*> kinds;

// --- the allocator --------------------------------------------------------------------------------------------------------

namespace fault
{
    static bool     armed = false, persistent = false;
    static uint64_t count = 0, failAt = ~0ull, failed = 0;
    static bool due()
    {
        if ( !armed ) return false;
        uint64_t k = count++;
        if ( persistent ? k < failAt : k != failAt ) return false;
        failed++;
        return true;
    }
} // namespace fault

static void* take( size_t n )
{
    if ( fault::due() ) throw std::bad_alloc();
    void* p = malloc( n ? n : 1 );
    if ( !p ) throw std::bad_alloc();
    return p;
}
void* operator new( size_t n ) { return take( n ); }
void* operator new[]( size_t n ) { return take( n ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return fault::due() ? nullptr : malloc( n ? n : 1 ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return fault::due() ? nullptr : malloc( n ? n : 1 ); }
void  operator delete( void* p ) noexcept { free( p ); }
void  operator delete[]( void* p ) noexcept { free( p ); }
void  operator delete( void* p, size_t ) noexcept { free( p ); }
void  operator delete[]( void* p, size_t ) noexcept { free( p ); }
void  operator delete( void* p, const std::nothrow_t& ) noexcept { free( p ); }
void  operator delete[]( void* p, const std::nothrow_t& ) noexcept { free( p ); }

// --- monitors -------------------------------------------------------------------------------------------------------------

static std::string in, out, what;

[[noreturn]] static void bad( const std::string& s ) { vf::fail( s + " | allocation " + std::to_string( fault::failAt ) + ( fault::persistent ? " and all later ones fail" : " fails" ) + " | " + what ); }

template <class F> static auto with( uint64_t k, bool persistent, F&& f ) -> decltype( f() )
{
    fault::count = fault::failed = 0;
    fault::failAt = k;
    fault::persistent = persistent;
    fault::armed = true;
    auto r = f();
    fault::armed = false;
    return r;
}

static int fds;

// Runs one case for every allocation: prepare makes a world, act is the call under test, judge looks at the outcome.
// The world is destroyed before the blocks are counted.
template <class World> struct Enumeration
{
    const char* name;
    bool files = false; // the call opens files
    std::function<void( World& )>         prepare;
    std::function<Status( World& )>       act;
    std::function<void( World&, Status )> judge;

    void run( uint64_t dense = 160 )
    {
        Status clean;
        uint64_t n;
        fault::failAt = ~0ull;
        {
            World w;
            prepare( w );
            clean = with( ~0ull, false, [ & ]() { return act( w ); } );
            n = fault::count;
            judge( w, clean );
        }
        // of calls with very many allocations the first, the last and a part of those between
        uint64_t step = n > dense ? n / dense + 1 : 1;
        for ( uint64_t k = 0; k < n; k += k < dense / 2 || k + dense / 2 >= n ? 1 : step )
            for ( int mode = 0; mode < 2; mode++ )
            {
                size_t before = track::live;
                {
                    World w;
                    {
                        track::On on;
                        prepare( w );
                    }
                    Status s;
                    {
                        track::On on;
                        s = with( k, mode == 1, [ & ]() { return act( w ); } );
                    }
                    if ( !fault::failed ) vf::event( "allocation not reached" );
                    vf::st.evaluations++;
                    vf::event( std::string( name ) + ": allocations failed" );
                    if ( s == Status::kException ) vf::event( std::string( name ) + ": reported" );
                    else if ( s == clean ) vf::event( std::string( name ) + ": done all the same" );
                    else bad( std::string( name ) + " returns " + statusName( s ) + " instead of " + statusName( clean ) + " or kException" );
                    if ( s == clean ) judge( w, s );
                    if ( files && openFds() != fds ) bad( std::string( name ) + " leaves a file open" );
                    {
                        // used again, then destroyed
                        track::On on;
                        w.again( *this );
                    }
                }
                if ( track::live != before )
                {
                    size_t lost = track::live - before;
                    track::reset();
                    bad( std::string( name ) + ": " + std::to_string( lost ) + " blocks are not given back" );
                }
            }
        vf::event( std::string( name ) + ": calls enumerated" );
        vf::nontrivial( vf::hashStr( what, vf::hashStr( name ) ) );
    }
};

struct Doc
{
    StructuredData d;
    template <class E> void again( E& e )
    {
        // the same call once more without a fault gives the clean outcome
        Status s = e.act( *this );
        track::Off off;
        e.judge( *this, s );
        ParseResult p = parse( d, "{\"a\":[1,\"two\"]}" );
        if ( p.status != Status::kOk || !d.GetRootJsonValue() ) bad( "the document cannot be used again" );
    }
};

static std::string some( Rng& r, int budget )
{
    gen::Opt o;
    o.budget = budget;
    o.maxDepth = 4;
    return gen::document( r, o );
}

static void dirty( StructuredData& d, const std::string& before ) { if ( !before.empty() ) parse( d, before ); }

static void parsing( uint64_t i, Rng& r )
{
    std::string t = some( r, r.range( 3, 24 ) ), before;
    if ( i % 4 == 1 ) t = gen::mutate( r, t );
    if ( i % 4 == 2 ) { size_t n = 1 + r.below( uint32_t( t.size() ) ); t = t.substr( 0, n ); }
    if ( i % 8 == 3 ) { t = "[" + t; for ( int k = r.range( 1, 20 ); k > 0; k-- ) t += ",[" + std::to_string( k ) + "]"; t += "]"; }
    if ( i % 8 == 7 ) { t = gen::bigObject( r, r.range( 2, 12 ), int( r.below( 3 ) ) ); }
    if ( r.chance( 1, 2 ) ) before = some( r, 6 );
    if ( t.find( '\0' ) != std::string::npos ) return;
    ref::Result x = ref::read( t );
    if ( x.encodedSurrogate || x.loneSurrogate || x.nulEscape ) return;
    what = "text " + vf::shown( t, 400 );
    vf::sample( t );
    ParseResult clean;
    {
        StructuredData d;
        clean = parse( d, t );
    }
    bool file = r.chance( 1, 3 ) && t.size() < 65000;
    if ( file ) vf::writeAll( in, t );
    ParseResult got;
    Buffer b( t );
    Enumeration<Doc> e;
    e.files = file;
    e.name = file ? "Parse(file)" : "Parse(buffer)";
    e.prepare = [ & ]( Doc& w ) { track::Off off; (void)off; dirty( w.d, before ); };
    // what the document holds before was taken outside the accounting, and is freed by the call or at the end
    e.act = [ & ]( Doc& w ) {
        got = file ? w.d.Parse( in.c_str() ) : w.d.Parse( b.a );
        return got.status;
    };
    e.judge = [ & ]( Doc& w, Status s ) {
        bool was = fault::armed;
        fault::armed = false;
        if ( s != clean.status ) bad( std::string( "the call without a fault returns " ) + statusName( s ) + " instead of " + statusName( clean.status ) );
        if ( got.errorLine != clean.errorLine || got.errorColumn != clean.errorColumn ) bad( "the place of the error is another one" );
        if ( s == Status::kOk && x.ok )
        {
            uint64_t n = 0;
            if ( !w.d.GetRootJsonValue() ) bad( "no document after success" );
            std::string y = compare( w.d.GetRootJsonValue(), x.root, n, false );
            if ( !y.empty() ) bad( "the document is not the text's: " + y );
        }
        fault::armed = was;
    };
    e.run();
}

struct DocObj
{
    StructuredData d;
    Obj            o, given;
    template <class E> void again( E& e )
    {
        Status s = e.act( *this );
        track::Off off;
        e.judge( *this, s );
    }
};

static void typed( uint64_t i, Rng& r )
{
    const Ops& o = *kinds[ i % kinds.size() ];
    Obj a = o.make( r );
    ref::Node n = o.node( a );
    StructuredData source;
    if ( o.serialize( source, a ) != Status::kOk ) return;
    std::string f = out;
    if ( source.Write( f.c_str(), 0 ) != Status::kOk ) return;
    std::string t = vf::readAll( f );
    if ( t.size() > 3000 ) return;
    // sometimes a document of another type or with a fault: the call must fail in its own way
    bool fits = !r.chance( 1, 5 );
    if ( !fits )
    {
        ref::Result x = ref::read( t );
        std::string u = r.chance( 1, 2 ) ? some( r, 8 ) : t;
        if ( u == t && u.size() > 8 ) { size_t p = t.find( ':' ); if ( p != std::string::npos ) u = t.substr( 0, p + 1 ) + "[[]]" + ( t.find( ',', p ) != std::string::npos ? "}" : "}" ); }
        StructuredData d;
        if ( parse( d, u ).status == Status::kOk ) t = u;
        else fits = true;
    }
    what = o.name + " " + vf::shown( t, 400 );
    StructuredData doc;
    if ( parse( doc, t ).status != Status::kOk ) return;
    Status cleanV = o.validate( doc, o.fresh() );
    std::string before = r.chance( 1, 2 ) ? some( r, 6 ) : "";

    Enumeration<DocObj> e;
    e.prepare = [ & ]( DocObj& w ) { w.o = o.fresh(); };
    e.name = "DeserializeTo";
    e.act = [ & ]( DocObj& w ) { return o.deserialize( doc, w.o ); };
    e.judge = [ & ]( DocObj& w, Status s ) {
        if ( s != cleanV ) bad( std::string( "deserialization without a fault returns " ) + statusName( s ) + " instead of " + statusName( cleanV ) );
        if ( s == Status::kOk && fits && !o.eq( w.o, a ) ) bad( "the object is not the document's: " + vf::shown( [ & ] { return o.name; }(), 50 ) );
    };
    e.run();

    // into an object that already holds something; what a failed attempt left there must not matter to the next one
    {
        ref::Result x = ref::read( t );
        uint64_t seed = r.next();
        auto used = [ & ]() { Rng q( seed ); return o.make( q ); };
        Obj expected = used();
        if ( cleanV == Status::kOk && x.ok ) o.update( x.root, expected );
        e.prepare = [ & ]( DocObj& w ) { w.o = used(); };
        e.name = "DeserializeTo an object in use";
        e.act = [ & ]( DocObj& w ) { return o.deserialize( doc, w.o ); };
        e.judge = [ & ]( DocObj& w, Status s ) {
            if ( s != cleanV ) bad( std::string( "deserialization without a fault returns " ) + statusName( s ) + " instead of " + statusName( cleanV ) );
            if ( s == Status::kOk && x.ok && !o.eq( w.o, expected ) ) bad( "the object in use is not the document's" );
        };
        e.run();
        if ( o.whole() )
        {
            Obj other = used();
            StructuredData held;
            if ( o.serialize( held, other ) == Status::kOk && held.Write( out.c_str(), 0 ) == Status::kOk )
            {
                std::string h = vf::readAll( out );
                e.prepare = [ & ]( DocObj& w ) { parse( w.d, h ); };
                e.name = "Serialize into a value";
                e.act = [ & ]( DocObj& w ) { return o.serializeInto( w.d.GetRootJsonValue(), a ); };
                e.judge = [ & ]( DocObj& w, Status s ) {
                    if ( s != Status::kOk ) bad( std::string( "serialization without a fault returns " ) + statusName( s ) );
                    uint64_t c = 0;
                    std::string y = compare( w.d.GetRootJsonValue(), n, c );
                    if ( !y.empty() ) bad( "the value is not the object: " + y );
                };
                e.run();
            }
        }
        e.prepare = [ & ]( DocObj& w ) { w.o = o.fresh(); };
    }

    e.name = "Validate";
    e.act = [ & ]( DocObj& w ) { return o.validate( doc, w.o ); };
    e.judge = [ & ]( DocObj&, Status s ) { if ( s != cleanV ) bad( std::string( "validation without a fault returns " ) + statusName( s ) ); };
    e.run();

    // a named value
    StructuredData holder;
    if ( parse( holder, "{\"x\":1,\"a name that does not fit into a short string, not even into a longer one, of eighty characters\":" + t + ",\"y\":2}" ).status == Status::kOk )
    {
        const char* name = "a name that does not fit into a short string, not even into a longer one, of eighty characters";
        e.name = "DeserializeProto";
        e.act = [ & ]( DocObj& w ) { return o.deserializeNamed( holder.GetRootJsonValue(), name, w.o ); };
        e.judge = [ & ]( DocObj& w, Status s ) {
            if ( s != cleanV ) bad( std::string( "named deserialization without a fault returns " ) + statusName( s ) );
            if ( s == Status::kOk && fits && !o.eq( w.o, a ) ) bad( "the named object is not the document's" );
        };
        e.run();
        e.name = "ValidateProto";
        e.act = [ & ]( DocObj& w ) { return o.validateNamed( holder.GetRootJsonValue(), name, w.o ); };
        e.judge = [ & ]( DocObj&, Status s ) { if ( s != cleanV ) bad( std::string( "named validation without a fault returns " ) + statusName( s ) ); };
        e.run();
        e.name = "SerializeProto";
        bool empty = r.chance( 1, 2 );
        e.prepare = [ & ]( DocObj& w ) { parse( w.d, empty ? "{}" : "{\"x\":[1,2]}" ); };
        std::string small = r.chance( 1, 2 ) ? "x" : name;
        e.act = [ & ]( DocObj& w ) { return o.serializeNamed( w.d.GetRootJsonValue(), small.c_str(), a ); };
        e.judge = [ & ]( DocObj& w, Status s ) {
            if ( s != Status::kOk ) bad( std::string( "named serialization without a fault returns " ) + statusName( s ) );
            const ObjectValue* ov = w.d.GetRootJsonValue()->AsJsonObjectValue();
            const Value* v = ov ? ov->FindMapElement( small.c_str() ) : nullptr;
            uint64_t c = 0;
            if ( !v ) bad( "the named value is missing" );
            std::string y = compare( v, n, c );
            if ( !y.empty() ) bad( "the named value is not the object: " + y );
        };
        e.run();
    }

    e.prepare = [ & ]( DocObj& w ) { dirty( w.d, before ); };
    e.name = "SerializeFrom";
    e.act = [ & ]( DocObj& w ) { return o.serialize( w.d, a ); };
    e.judge = [ & ]( DocObj& w, Status s ) {
        if ( s != Status::kOk ) bad( std::string( "serialization without a fault returns " ) + statusName( s ) );
        uint64_t c = 0;
        if ( !w.d.GetRootJsonValue() ) bad( "no document after success" );
        std::string y = compare( w.d.GetRootJsonValue(), n, c );
        if ( !y.empty() ) bad( "the document is not the object: " + y );
    };
    e.run();
}

static void writing( uint64_t, Rng& r )
{
    std::string t = r.chance( 1, 3 ) ? gen::nested( r, r.range( 1, 60 ), 3, true ) : some( r, r.range( 3, 20 ) );
    StructuredData d;
    if ( parse( d, t ).status != Status::kOk ) return;
    uint32 indent = r.below( 9 );
    char ch = r.chance( 1, 2 ) ? ' ' : '\t';
    unlink( out.c_str() );
    Status clean = d.Write( out.c_str(), indent, ch );
    std::string want = vf::readAll( out );
    what = "written text " + vf::shown( t, 400 );
    Enumeration<DocObj> e;
    e.files = true;
    e.name = "Write";
    e.prepare = [ & ]( DocObj& ) {};
    e.act = [ & ]( DocObj& ) { return d.Write( out.c_str(), indent, ch ); };
    e.judge = [ & ]( DocObj&, Status s ) {
        if ( s != clean ) bad( std::string( "writing without a fault returns " ) + statusName( s ) );
        if ( s == Status::kOk && vf::readAll( out ) != want ) bad( "the file is not the document" );
    };
    e.run();
    // the document itself is not changed by a failed write
    ref::Result x = ref::read( t );
    uint64_t c = 0;
    if ( x.ok && !x.loneSurrogate && !x.encodedSurrogate )
    {
        std::string y = compare( d.GetRootJsonValue(), x.root, c );
        if ( !y.empty() ) bad( "the document changed by writing: " + y );
    }
}

static void all()
{
    for ( auto& o : ops::all() ) kinds.push_back( o.get() );
    std::sort( kinds.begin(), kinds.end(), []( const Ops* a, const Ops* b ) { return a->name < b->name; } );
    track::install();
    in = vf::st.dir + "/in." + std::to_string( vf::st.shard );
    out = vf::st.dir + "/out." + std::to_string( vf::st.shard );
    fds = openFds();
    vf::stream( "parsing", vf::scaled( 3000 ), parsing );
    vf::stream( "typed", vf::scaled( 66 * 24 ), typed );
    vf::stream( "writing", vf::scaled( 1500 ), writing );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
