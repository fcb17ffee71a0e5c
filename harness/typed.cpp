// Monitors of the typed interface and of document histories: C02 C08 C09 C10 C24.
#include "ops.h"
#include "track.h"
#include "render.h"

using namespace lib;
using ops::Obj;
using ops::Ops;
using types::Statuses;
using vf::Rng;

std::vector<std::unique_ptr<Ops>>& ops::all()
{
    static std::vector<std::unique_ptr<Ops>> v;
    return v;
}

static std::vector<const Ops*> kinds; // in a fixed order

static std::string fileName( const char* n ) { return vf::st.dir + "/" + n + "." + std::to_string( vf::st.shard ); }

static std::string names( const Statuses& s )
{
    std::string o;
    for ( Status x : s ) o += std::string( o.empty() ? "" : "|" ) + statusName( x );
    return o.empty() ? "kOk" : o;
}

static void collect( ref::Node& n, std::vector<ref::Node*>& all )
{
    all.push_back( &n );
    for ( auto& c : n.items ) collect( c, all );
    for ( auto& c : n.members ) collect( c.second, all );
}

static size_t size( const ref::Node& n )
{
    size_t k = 1;
    for ( auto& c : n.items ) k += size( c );
    for ( auto& c : n.members ) k += size( c.second );
    return k;
}

static ref::Node anyLeaf( Rng& r )
{
    ref::Node n;
    n.kind = ref::Kind( r.below( 6 ) );
    if ( n.kind == ref::kString ) n.text = types::anyText( r );
    if ( n.kind == ref::kNumber ) n.number = types::anyNumber( r );
    if ( n.kind == ref::kBool ) n.flag = r.chance( 1, 2 );
    if ( n.kind == ref::kArray && r.chance( 1, 2 ) ) n.items.push_back( types::leaf( ref::Kind( r.below( 4 ) ) ) );
    if ( n.kind == ref::kObject && r.chance( 1, 2 ) ) n.members.emplace_back( "text", types::leaf( ref::Kind( r.below( 4 ) ) ) );
    return n;
}

// One change to a document.
static void damage( ref::Node& root, Rng& r )
{
    std::vector<ref::Node*> all;
    collect( root, all );
    for ( int tries = 0; tries < 20; tries++ )
    {
        ref::Node& n = *all[ r.below( uint32_t( all.size() ) ) ];
        switch ( r.below( 6 ) )
        {
            case 0: case 1: n = anyLeaf( r ); return;
            case 2: case 3:
                if ( n.kind != ref::kObject || n.members.empty() ) break;
                n.members.erase( n.members.begin() + long( r.below( uint32_t( n.members.size() ) ) ) );
                return;
            case 4:
                if ( n.kind != ref::kObject ) break;
                {
                    std::string name = types::anyText( r );
                    for ( auto& m : n.members ) if ( m.first == name ) return;
                    n.members.insert( n.members.begin() + long( r.below( uint32_t( n.members.size() + 1 ) ) ), { name, anyLeaf( r ) } );
                }
                return;
            case 5:
                if ( n.kind == ref::kObject && n.members.size() > 1 )
                {
                    // another order is the same document; a changed name is an absent one
                    size_t a = r.below( uint32_t( n.members.size() ) ), b = r.below( uint32_t( n.members.size() ) );
                    if ( r.chance( 1, 2 ) ) std::swap( n.members[ a ], n.members[ b ] );
                    else
                    {
                        std::string x = n.members[ a ].first + "x";
                        if ( r.chance( 1, 2 ) && n.members[ a ].first.size() > 1 && (unsigned char)n.members[ a ].first.back() < 128 ) x = n.members[ a ].first.substr( 0, n.members[ a ].first.size() - 1 );
                        for ( auto& m : n.members ) if ( m.first == x ) return;
                        n.members[ a ].first = x;
                    }
                    return;
                }
                if ( n.kind == ref::kArray ) { n.items.insert( n.items.begin() + long( r.below( uint32_t( n.items.size() + 1 ) ) ), anyLeaf( r ) ); return; }
                break;
        }
    }
}

// A document already holding something.
static void dirty( StructuredData& d, Rng& r )
{
    switch ( r.below( 5 ) )
    {
        case 0: break;
        case 1: parse( d, gen::document( r ) ); break;
        case 2: parse( d, gen::mutate( r, gen::document( r ) ) ); break;
        default: { const Ops& o = *r.pick( kinds ); o.serialize( d, o.make( r ) ); break; }
    }
}

// ---- C08 -------------------------------------------------------------------

[[noreturn]] static void bad( const Ops& o, const std::string& what, const ref::Node& n ) { vf::fail( o.name + ": " + what + " | object: " + vf::shown( render( n ), 600 ) ); }

static void roundTrip( const Ops& o, Rng& r )
{
    Obj a = o.make( r );
    ref::Node n = o.node( a );
    StructuredData d;
    dirty( d, r );
    Status s = o.serialize( d, a );
    vf::st.evaluations++;
    if ( s != Status::kOk ) bad( o, std::string( "serialization fails with " ) + statusName( s ), n );
    if ( !d.GetRootJsonValue() ) bad( o, "serialization leaves no document", n );
    uint64_t visited = 0;
    std::string e = compare( d.GetRootJsonValue(), n, visited );
    if ( !e.empty() ) bad( o, "the document is not the object: " + e, n );
    Obj b = o.fresh();
    s = o.deserialize( d, b );
    if ( s != Status::kOk ) bad( o, std::string( "deserialization of the own document fails with " ) + statusName( s ), n );
    if ( !o.eq( a, b ) ) bad( o, "the object is not the same after serialize and deserialize: " + vf::shown( render( o.node( b ) ), 400 ), n );
    s = o.validate( d, o.fresh() );
    if ( s != Status::kOk ) bad( o, std::string( "validation of the own document fails with " ) + statusName( s ), n );
    // through a file
    std::string f = fileName( "out" );
    s = d.Write( f.c_str(), r.below( 6 ), r.chance( 1, 2 ) ? ' ' : '\t' );
    if ( s != Status::kOk ) bad( o, std::string( "writing fails with " ) + statusName( s ), n );
    std::string out = vf::readAll( f );
    ref::Result w = ref::read( out );
    if ( !w.ok ) bad( o, "the file is not a JSON text: " + vf::shown( out, 300 ), n );
    if ( w.duplicates ) bad( o, "the file repeats a name: " + vf::shown( out, 300 ), n );
    e = compare( w.root, n, false );
    if ( !e.empty() ) bad( o, "the file does not denote the object: " + e + ": " + vf::shown( out, 300 ), n );
    StructuredData d2;
    dirty( d2, r );
    ParseResult p = out.size() > 65534 ? parse( d2, out ) : d2.Parse( f.c_str() );
    if ( p.status != Status::kOk ) bad( o, std::string( "the file is refused with " ) + statusName( p.status ), n );
    Obj c = o.fresh();
    s = o.deserialize( d2, c );
    if ( s != Status::kOk ) bad( o, std::string( "deserialization of the file fails with " ) + statusName( s ), n );
    if ( !o.eq( a, c ) ) bad( o, "the object is not the same after the file: " + vf::shown( render( o.node( c ) ), 400 ), n );
    if ( !o.eq( a, b ) ) bad( o, "an object changed when another document was read", n );
    vf::event( "values compared", visited );
    vf::event( "round trips of " + o.name );
    if ( visited > 1 ) vf::nontrivial( vf::hashStr( render( n ), vf::hashStr( o.name ) ) );
    if ( visited > 8 ) vf::sample( o.name + " " + render( n ) );
}

// Several values of any type under names of one object.
static void named( Rng& r )
{
    StructuredData d;
    ObjectMap<Null> nothing;
    if ( d.SerializeFrom( nothing ) != Status::kOk ) vf::fail( "an empty map cannot be serialized" );
    Value* root = d.GetRootJsonValue();
    std::map<std::string, std::pair<const Ops*, Obj>> model;
    std::vector<std::string> order;
    bool again = false;
    int n = r.chance( 1, 40 ) ? r.range( 100, 700 ) : r.range( 1, 12 );
    for ( int i = 0; i < n; i++ )
    {
        const Ops& o = n > 12 ? *kinds[ i % 4 ] : *r.pick( kinds );
        Obj a = o.make( r );
        std::string name = r.chance( 1, n > 12 ? 30 : 3 ) && !model.empty() ? model.begin()->first : types::anyText( r );
        Status s = o.serializeNamed( root, name.c_str(), a );
        if ( s != Status::kOk ) bad( o, std::string( "serialization under a name fails with " ) + statusName( s ), o.node( a ) );
        if ( model.count( name ) ) { vf::event( "names serialized again" ); again = true; }
        else order.push_back( name );
        model[ name ] = { &o, a };
        vf::st.evaluations++;
    }
    ref::Node whole = types::leaf( ref::kObject );
    for ( auto& m : model ) whole.members.emplace_back( m.first, m.second.first->node( m.second.second ) );
    uint64_t visited = 0;
    std::string e = compare( root, whole, visited );
    if ( !e.empty() ) vf::fail( "values under names: " + e );
    for ( auto& m : model )
    {
        const Ops& o = *m.second.first;
        Obj b = o.fresh();
        Status v = o.validateNamed( root, m.first.c_str(), b ), s = o.deserializeNamed( root, m.first.c_str(), b );
        if ( s != Status::kOk || v != Status::kOk ) bad( o, std::string( "reading under the name fails with " ) + statusName( s ) + " " + statusName( v ), o.node( m.second.second ) );
        if ( !o.eq( b, m.second.second ) ) bad( o, "the object under the name is not the same", o.node( m.second.second ) );
    }
    std::string f = fileName( "out" );
    if ( d.Write( f.c_str(), r.below( 5 ), r.chance( 1, 2 ) ? ' ' : '\t' ) != Status::kOk ) vf::fail( "a document of named values cannot be written" );
    ref::Result w = ref::read( vf::readAll( f ) );
    if ( !w.ok ) vf::fail( "the file of named values is not a JSON text: " + vf::shown( vf::readAll( f ), 300 ) );
    if ( w.duplicates ) vf::fail( "the file of named values repeats a name: " + vf::shown( vf::readAll( f ), 300 ) );
    // names appear in the order in which they were given; where a name given again stands is open
    if ( !again ) for ( size_t i = 0; i < order.size(); i++ ) if ( i >= w.root.members.size() || w.root.members[ i ].first != order[ i ] ) vf::fail( "the names are written in another order: " + vf::shown( vf::readAll( f ), 300 ) );
    e = compare( w.root, whole, false );
    if ( !e.empty() ) vf::fail( "the file of named values denotes something else: " + e );
    vf::event( "objects of named values" );
}

// Values given to a document that is an array are appended in order.
static void appended( Rng& r )
{
    StructuredData d;
    Array<Null> nothing;
    if ( d.SerializeFrom( nothing ) != Status::kOk ) vf::fail( "an empty array cannot be serialized" );
    ref::Node whole = types::leaf( ref::kArray );
    for ( int n = r.range( 1, 9 ); n; n-- )
    {
        const Ops& o = *r.pick( kinds );
        Obj a = o.make( r );
        Status s = o.serializeNamed( d.GetRootJsonValue(), types::anyText( r ).c_str(), a );
        if ( s != Status::kOk ) bad( o, std::string( "serialization into an array fails with " ) + statusName( s ), o.node( a ) );
        whole.items.push_back( o.node( a ) );
        vf::st.evaluations++;
    }
    uint64_t visited = 0;
    std::string e = compare( d.GetRootJsonValue(), whole, visited );
    if ( !e.empty() ) vf::fail( "values appended to an array: " + e );
    std::string f = fileName( "out" );
    if ( d.Write( f.c_str(), r.below( 5 ) ) != Status::kOk ) vf::fail( "a document of appended values cannot be written" );
    ref::Result w = ref::read( vf::readAll( f ) );
    if ( !w.ok ) vf::fail( "the file of appended values is not a JSON text: " + vf::shown( vf::readAll( f ), 300 ) );
    e = compare( w.root, whole, false );
    if ( !e.empty() ) vf::fail( "the file of appended values denotes something else: " + e );
    vf::event( "arrays of appended values" );
}

// A type whose functions fail for negative numbers: failures must reach the caller from any depth.
namespace failing
{
    struct Picky
    {
        double v = 0;
    };
    inline Status Serialize( Value* value, const Picky& p ) noexcept { return p.v < 0 ? Status::kInvalidStructuredData : C4::Json::Serialize( value, "v", p.v ); }
    inline Status Deserialize( const Value* value, Picky& p ) noexcept
    {
        Status s = C4::Json::Deserialize( value, "v", p.v );
        return s != Status::kOk ? s : p.v < 0 ? Status::kInvalidStructuredData : Status::kOk;
    }
    inline Status Validate( const Value* value, const Picky& p ) noexcept
    {
        Status s = C4::Json::Validate( value, "v", p.v );
        if ( s != Status::kOk ) return s;
        const double* d = value->AsJsonObjectValue()->FindNumber( "v" );
        return d && *d < 0 ? Status::kInvalidStructuredData : Status::kOk;
    }
    struct PickyMember
    {
        double v = 0;
        Status Serialize( Value* value ) const noexcept { Picky p { v }; return failing::Serialize( value, p ); }
        Status Deserialize( const Value* value ) noexcept { Picky p; Status s = failing::Deserialize( value, p ); v = p.v; return s; }
        Status Validate( const Value* value ) const noexcept { Picky p; return failing::Validate( value, p ); }
    };
    template <class P> struct Holder
    {
        double a = 1;
        P      one;
        double b = 2;
        P      two;
        double c = 3;
    };
    using HP = Holder<Picky>;
    using HM = Holder<PickyMember>;
#define VF_HOLDER_PROTO "a", object.a, "one", object.one, "b", object.b, optional, "two", object.two, "c", object.c
    DEFINE_JSON4C4_FUNCTIONS( HP, VF_HOLDER_PROTO )
    DEFINE_JSON4C4_FUNCTIONS( HM, VF_HOLDER_PROTO )
} // namespace failing

template <class T, class Make> static void failures( const char* name, Rng& r, Make make )
{
    // make fills t with values drawn by next() and leaves at each place what next() says
    int places = 0;
    { T t {}; make( t, [ & ]() { places++; return 1.0; } ); }
    int at = r.range( -1, places - 1 );
    std::vector<double> vals;
    for ( int i = 0; i < places; i++ ) vals.push_back( i == at ? -1.0 - r.below( 5 ) : double( r.below( 5 ) ) );
    T t {}, good {};
    int k = 0;
    make( t, [ & ]() { return vals[ size_t( k++ ) ]; } );
    StructuredData d;
    Status s = d.SerializeFrom( t );
    vf::st.evaluations++;
    if ( ( s == Status::kOk ) != ( at < 0 ) ) vf::fail( std::string( name ) + ": an element " + ( at < 0 ? "can" : "cannot" ) + " be serialized (place " + std::to_string( at ) + " of " + std::to_string( places ) + "), SerializeFrom returns " + statusName( s ) );
    // the same document, read
    k = 0;
    make( good, [ & ]() { k++; return 1.0; } );
    StructuredData g;
    if ( g.SerializeFrom( good ) != Status::kOk ) vf::fail( std::string( name ) + " cannot be serialized" );
    std::string text = render( snapshot( g.GetRootJsonValue() ) );
    // numbers of "v" in the order of the text
    std::string changed;
    size_t pos = 0;
    for ( int i = 0; i < places; i++ )
    {
        size_t q = text.find( "\"v\":1", pos );
        if ( q == std::string::npos ) vf::fail( std::string( name ) + ": an element is missing in the document " + text );
        changed += text.substr( pos, q - pos ) + ( i == at ? "\"v\":-1" : "\"v\":1" );
        pos = q + 5;
    }
    changed += text.substr( pos );
    StructuredData p;
    if ( parse( p, changed ).status != Status::kOk ) vf::harnessError( "cannot parse " + changed );
    T u {};
    Status v = Validate( p, u ), ds = p.DeserializeTo( u );
    if ( v != ds ) vf::fail( std::string( name ) + ": validation gives " + statusName( v ) + ", deserialization " + statusName( ds ) + ": " + changed );
    if ( ds != ( at < 0 ? Status::kOk : Status::kInvalidStructuredData ) ) vf::fail( std::string( name ) + ": an element's own status is lost, deserialization returns " + statusName( ds ) + ": " + changed );
    vf::event( at < 0 ? "no failing element" : "a failing element reported" );
    vf::nontrivial( vf::hashStr( changed, vf::hashStr( name ) ) );
}

template <class P> static void failuresOf( Rng& r )
{
    using namespace failing;
    int n = r.range( 1, 5 );
    failures<Holder<P>>( "struct", r, []( auto& t, auto next ) { t.one.v = next(); t.two.v = next(); } );
    failures<Array<P>>( "Array", r, [ n ]( auto& t, auto next ) { for ( int i = 0; i < n; i++ ) { P p; p.v = next(); t.AppendArrayElement( p ); } } );
    failures<std::vector<P>>( "std::vector", r, [ n ]( auto& t, auto next ) { for ( int i = 0; i < n; i++ ) { P p; p.v = next(); t.push_back( p ); } } );
    failures<std::map<std::string, P>>( "std::map", r, [ n ]( auto& t, auto next ) { for ( int i = 0; i < n; i++ ) { P p; p.v = next(); t[ "k" + std::to_string( i ) ] = p; } } );
    failures<ObjectMap<P>>( "ObjectMap", r, [ n ]( auto& t, auto next ) {
        for ( int i = 0; i < n; i++ ) { auto* e = new ObjectMapElement<P>; e->name = ( "k" + std::to_string( i ) ).c_str(); e->data.v = next(); t.InsertMapElement( e ); }
    } );
    failures<Array<Array<P>>>( "Array of Array", r, [ n ]( auto& t, auto next ) {
        for ( int i = 0; i < n; i++ ) { Array<P> a; for ( int j = 0; j < 2; j++ ) { P p; p.v = next(); a.AppendArrayElement( p ); } t.AppendArrayElement( static_cast<Array<P>&&>( a ) ); }
    } );
    failures<std::vector<Holder<P>>>( "std::vector of struct", r, [ n ]( auto& t, auto next ) { for ( int i = 0; i < n; i++ ) { Holder<P> h; h.one.v = next(); h.two.v = next(); t.push_back( h ); } } );
    failures<std::map<std::string, Array<P>>>( "std::map of Array", r, [ n ]( auto& t, auto next ) { for ( int i = 0; i < n; i++ ) { Array<P>& a = t[ "k" + std::to_string( i ) ]; P p; p.v = next(); a.AppendArrayElement( p ); } } );
}

static void nulStrings( Rng& r, uint64_t i )
{
    std::string t = types::anyText( r );
    bool bad = i % 2;
    if ( bad ) t.insert( r.below( uint32_t( t.size() + 1 ) ), 1, '\0' );
    StructuredData d;
    Status s = Status::kOk;
    const char* how = "";
    switch ( i / 2 % 6 )
    {
        case 0: how = "std::string"; s = d.SerializeFrom( t ); break;
        case 1: { how = "std::vector<std::string>"; std::vector<std::string> v { "a", t, "b" }; s = d.SerializeFrom( v ); break; }
        case 2: { how = "value in std::map"; std::map<std::string, std::string> m { { "a", "x" }, { "b", t } }; s = d.SerializeFrom( m ); break; }
        case 3: { how = "name in std::map"; std::map<std::string, double> m { { t, 1 }, { "zz", 2 } }; s = d.SerializeFrom( m ); break; }
        case 4: { how = "member"; types::Std x; x.text = t; s = d.SerializeFrom( x ); break; }
        case 5: { how = "Array<std::string>"; Array<std::string> a; a.AppendArrayElement( t ); s = d.SerializeFrom( a ); break; }
    }
    vf::st.evaluations++;
    if ( ( s == Status::kOk ) == bad ) vf::fail( std::string( how ) + ( bad ? " holding NUL is serialized with success: " : " is refused: " ) + vf::shown( t ) );
    vf::event( bad ? "NUL refused" : "text accepted" );
}

static void c08()
{
    size_t n = kinds.size();
    vf::stream( "roundtrip", n * vf::scaled( 260 ), [ & ]( uint64_t i, Rng& r ) { roundTrip( *kinds[ i % n ], r ); } );
    vf::stream( "named", vf::scaled( 1500 ), [ & ]( uint64_t, Rng& r ) { named( r ); } );
    vf::stream( "appended", vf::scaled( 600 ), [ & ]( uint64_t, Rng& r ) { appended( r ); } );
    vf::stream( "failing", vf::scaled( 600 ), [ & ]( uint64_t, Rng& r ) { failuresOf<failing::Picky>( r ); failuresOf<failing::PickyMember>( r ); } );
    vf::stream( "nul", vf::scaled( 1200 ), [ & ]( uint64_t i, Rng& r ) { nulStrings( r, i ); } );
    // many elements
    vf::stream( "large", 32, [ & ]( uint64_t i, Rng& r ) {
        StructuredData d, d2;
        int k = i < 24 ? 500 + int( i ) * 700 : vf::hugeSize( r );
        std::map<std::string, double> m, m2;
        std::vector<std::string> v, v2;
        Array<String<>> a, a2;
        ObjectMap<double> o, o2;
        for ( int j = 0; j < k; j++ )
        {
            std::string t = "t" + std::to_string( i < 24 ? r.below( 100000 ) : uint32_t( j ) * 2654435761u );
            m[ t ] = j;
            v.push_back( t );
            a.AppendArrayElement( t.c_str() );
            auto* e = new ObjectMapElement<double>;
            e->name = t.c_str();
            e->data = j;
            if ( !o.InsertMapElement( e ) ) delete e;
        }
        auto twice = [ & ]( auto& x, auto& y, const char* what ) {
            if ( d.SerializeFrom( x ) != Status::kOk || d.DeserializeTo( y ) != Status::kOk ) vf::fail( std::string( "a large " ) + what + " fails" );
            using T = std::decay_t<decltype( x )>;
            if ( !types::Model<T>::eq( x, y ) ) vf::fail( std::string( "a large " ) + what + " is not the same afterwards" );
            vf::st.evaluations++;
        };
        twice( m, m2, "std::map" );
        twice( v, v2, "std::vector" );
        twice( a, a2, "Array" );
        twice( o, o2, "ObjectMap" );
        std::string text( size_t( k ), 'q' ), text2;
        String<> plain( text.c_str() ), plain2;
        twice( text, text2, "std::string" );
        twice( plain, plain2, "String" );
        std::vector<bool> b, b2;
        for ( int j = 0; j < k; j++ ) b.push_back( r.chance( 1, 2 ) );
        twice( b, b2, "vector of bool" );
    } );
}

// ---- C09 -------------------------------------------------------------------

static void judge( const Ops& o, const ref::Node& n, Rng& r, bool spaces )
{
    std::string text = render( n, spaces ? &r : nullptr );
    StructuredData d;
    ParseResult p = parse( d, text );
    if ( p.status != Status::kOk ) { vf::event( "document refused" ); if ( getenv( "VF_SHOW" ) ) fprintf( stderr, "%s: %s\n", statusName( p.status ), vf::shown( text, 600 ).c_str() ); return; }
    uint64_t visited = 0;
    if ( !compare( d.GetRootJsonValue(), n, visited ).empty() ) { vf::event( "document differs" ); return; } // C04's business
    Statuses want;
    o.verdict( n, want );
    uint64_t seed = r.next();
    Rng ra( seed ), rb( seed );
    bool filled = r.chance( 1, 3 );
    Obj x = filled ? o.make( ra ) : o.fresh(), twin = filled ? o.make( rb ) : o.fresh();
    Status v = o.validate( d, x );
    if ( !o.eq( x, twin ) ) bad( o, "validation changed the object", n );
    visited = 0;
    std::string e = compare( d.GetRootJsonValue(), n, visited );
    if ( !e.empty() ) bad( o, "validation changed the document: " + e, n );
    Obj y = o.fresh();
    Status s = o.deserialize( d, y );
    vf::st.evaluations++;
    if ( v != s ) bad( o, std::string( "validation gives " ) + statusName( v ) + ", deserialization " + statusName( s ) + " (should be " + names( want ) + ")", n );
    if ( want.empty() ? s != Status::kOk : !want.count( s ) ) bad( o, std::string( "validation and deserialization give " ) + statusName( s ) + ", should be " + names( want ), n );
    visited = 0;
    e = compare( d.GetRootJsonValue(), n, visited );
    if ( !e.empty() ) bad( o, "deserialization changed the document: " + e, n );
    if ( want.empty() )
    {
        Obj z = o.fresh();
        o.load( n, z );
        if ( !o.eq( y, z ) ) bad( o, "deserialization gives another object: " + vf::shown( render( o.node( y ) ), 400 ), n );
    }
    vf::event( std::string( "verdict " ) + names( want ) );
    vf::nontrivial( vf::hashStr( text, vf::hashStr( o.name ) ) );
    if ( want.size() == 1 && visited > 4 ) vf::sample( o.name + " " + text );
}

// Deserialization into an object that already holds something: absent optional names leave their members alone.
template <class T> static void untouched( const char* name, Rng& r )
{
    uint64_t seed = r.next();
    Rng ra( seed ), rb( seed );
    T a {}, b {}, source {};
    types::Model<T>::make( ra, a );
    types::Model<T>::make( rb, b );
    types::Model<T>::make( r, source );
    ref::Node n = types::Model<T>::node( source );
    for ( size_t i = n.members.size(); i-- > 0; )
        if ( n.members[ i ].first == "map" || r.chance( 1, 2 ) )
        {
            ref::Node m = n;
            m.members.erase( m.members.begin() + long( i ) );
            Statuses s;
            types::Model<T>::verdict( m, s );
            if ( s.empty() ) n = m; // optional
        }
    StructuredData d;
    if ( parse( d, render( n ) ).status != Status::kOk ) return;
    Status s = d.DeserializeTo( a );
    vf::st.evaluations++;
    if ( s != Status::kOk ) vf::fail( std::string( name ) + ": absent optional names give " + statusName( s ) + ": " + render( n ) );
    types::Model<T>::load( n, b );
    if ( !types::Model<T>::eq( a, b ) ) vf::fail( std::string( name ) + ": members of absent optional names were touched or others not set: " + render( n ) + " gives " + render( types::Model<T>::node( a ) ) );
    vf::event( "optional names absent", 9 - n.members.size() );
    vf::nontrivial( vf::hashStr( render( n ), seed ) );
}

static void c09()
{
    size_t n = kinds.size();
    // every type against the smallest documents of every kind
    vf::stream( "matrix", n * 12, [ & ]( uint64_t i, Rng& r ) {
        static const char* const docs[] = { "\"\"", "\"x\"", "0", "1.5", "true", "false", "null", "[]", "{}", "[null]", "{\"text\":1}", "[[]]" };
        ref::Result d = ref::read( docs[ i % 12 ] );
        judge( *kinds[ i / 12 ], d.root, r, false );
    } );
    // every type against every place of its own document changed to every kind, and every name removed
    vf::stream( "faults", n * vf::scaled( 6 ), [ & ]( uint64_t i, Rng& r ) {
        const Ops& o = *kinds[ i % n ];
        ref::Node base;
        for ( int tries = 0; tries < 30; tries++ ) { base = o.node( o.make( r ) ); if ( size( base ) < 250 ) break; }
        judge( o, base, r, true );
        std::vector<ref::Node*> all;
        collect( base, all );
        size_t step = all.size() > 80 ? all.size() / 60 : 1;
        for ( size_t k = r.below( uint32_t( step ) ); k < all.size(); k += step )
        {
            ref::Node keep = *all[ k ];
            for ( int kind = 0; kind < 6; kind++ )
            {
                if ( kind == keep.kind ) continue;
                *all[ k ] = types::leaf( ref::Kind( kind ) );
                judge( o, base, r, false );
            }
            *all[ k ] = keep;
            if ( keep.kind == ref::kObject )
                for ( size_t m = 0; m < keep.members.size(); m++ )
                {
                    all[ k ]->members.erase( all[ k ]->members.begin() + long( m ) );
                    judge( o, base, r, false );
                    *all[ k ] = keep;
                }
            // nodes below were replaced by copies
            all.clear();
            collect( base, all );
        }
    } );
    vf::stream( "damaged", n * vf::scaled( 120 ), [ & ]( uint64_t i, Rng& r ) {
        const Ops& o = *kinds[ i % n ];
        ref::Node d = o.node( o.make( r ) );
        for ( int k = r.range( 0, 3 ); k > 0; k-- ) damage( d, r );
        judge( o, d, r, true );
    } );
    // the document of another type, and any document
    vf::stream( "foreign", n * vf::scaled( 30 ), [ & ]( uint64_t i, Rng& r ) {
        if ( r.chance( 1, 2 ) ) { const Ops& p = *r.pick( kinds ); judge( *kinds[ i % n ], p.node( p.make( r ) ), r, false ); }
        else
        {
            ref::Result d = ref::read( gen::document( r ) );
            if ( d.ok && !d.nulEscape && !d.loneSurrogate ) judge( *kinds[ i % n ], d.root, r, false );
        }
    } );
    vf::stream( "untouched", vf::scaled( 6000 ), [ & ]( uint64_t i, Rng& r ) {
        if ( i % 2 ) untouched<types::Light>( "Light", r );
        else untouched<types::Choice>( "Choice", r );
    } );
    vf::stream( "failing", vf::scaled( 400 ), [ & ]( uint64_t, Rng& r ) { failuresOf<failing::Picky>( r ); failuresOf<failing::PickyMember>( r ); } );
    // named access to values of an object, present and absent, and to values that are no objects
    vf::stream( "named", vf::scaled( 4000 ), [ & ]( uint64_t, Rng& r ) {
        const Ops& o = *r.pick( kinds );
        ref::Node whole = types::leaf( ref::kObject );
        int k = r.range( 0, 4 );
        for ( int j = 0; j < k; j++ )
        {
            const Ops& p = r.chance( 1, 2 ) ? o : *r.pick( kinds );
            ref::Node m = p.node( p.make( r ) );
            if ( r.chance( 1, 3 ) ) damage( m, r );
            whole.members.emplace_back( "m" + std::to_string( j ), m );
        }
        if ( r.chance( 1, 10 ) ) whole = anyLeaf( r );
        StructuredData d;
        if ( parse( d, render( whole ) ).status != Status::kOk ) return;
        for ( int j = 0; j < 5; j++ )
        {
            std::string q = "m" + std::to_string( j );
            Statuses want;
            if ( whole.kind != ref::kObject ) want.insert( Status::kInvalidValueType );
            else
            {
                const ref::Node* at = nullptr;
                for ( auto& m : whole.members ) if ( m.first == q ) at = &m.second;
                if ( at ) o.verdict( *at, want );
                else want.insert( Status::kNameNotPresent );
            }
            Obj x = o.fresh();
            Status v = o.validateNamed( d.GetRootJsonValue(), q.c_str(), x ), s = o.deserializeNamed( d.GetRootJsonValue(), q.c_str(), x );
            vf::st.evaluations++;
            if ( v != s || ( want.empty() ? s != Status::kOk : !want.count( s ) ) ) bad( o, "under the name " + q + ": validation gives " + statusName( v ) + ", deserialization " + statusName( s ) + ", should be " + names( want ), whole );
            vf::event( "named verdict " + names( want ) );
        }
    } );
    vf::stream( "novalue", n, [ & ]( uint64_t i, Rng& ) {
        StructuredData d;
        const Ops& o = *kinds[ i ];
        Status v = o.validate( d, o.fresh() ), s = o.deserialize( d, o.fresh() );
        if ( v == Status::kOk || v != s ) bad( o, std::string( "without a document: " ) + statusName( v ) + " " + statusName( s ), types::leaf( ref::kNull ) );
        vf::st.evaluations++;
    } );
}

// ---- C10 -------------------------------------------------------------------

struct Doc
{
    StructuredData d;
    bool      has = false;
    bool      vague = false; // content unspecified
    ref::Node node;
    bool      ordered = false;
};

static void content( Doc& m, const std::string& trace )
{
    const StructuredData& c = m.d;
    if ( m.vague ) { m.has = c.GetRootJsonValue() != nullptr; if ( m.has ) m.node = snapshot( c.GetRootJsonValue() ); m.vague = false; m.ordered = false; return; }
    if ( ( c.GetRootJsonValue() != nullptr ) != m.has ) vf::fail( std::string( "the document " ) + ( m.has ? "lost its value" : "holds a value it should not" ) + " | history: " + trace );
    if ( !m.has ) return;
    uint64_t v = 0;
    std::string e = compare( c.GetRootJsonValue(), m.node, v );
    if ( !e.empty() ) vf::fail( "the document is not what the last operation made it: " + e + " | history: " + trace );
    vf::event( "values compared", v );
}

static bool finite( const ref::Node& n )
{
    if ( n.kind == ref::kNumber && n.number - n.number != 0 ) return false;
    for ( auto& c : n.items ) if ( !finite( c ) ) return false;
    for ( auto& c : n.members ) if ( !finite( c.second ) ) return false;
    return true;
}

static void history( Rng& r, int steps )
{
    Doc docs[ 2 ];
    std::string trace;
    for ( int i = 0; i < steps; i++ )
    {
        Doc& m = docs[ r.below( 2 ) ];
        Doc& other = &m == docs ? docs[ 1 ] : docs[ 0 ];
        std::string where = &m == docs ? " A." : " B.";
        int op = int( r.below( 16 ) );
        if ( trace.size() > 3000 ) trace.erase( 0, 1500 );
        vf::st.evaluations++;
        vf::event( "op " + std::to_string( op ) );
        switch ( op )
        {
            case 0: case 1: case 2: case 3:
            {
                // parse, valid or damaged
                std::string s = r.chance( 1, 40 ) ? gen::large( r, r.range( 100, 1500 ) ) : gen::document( r );
                int kind = int( r.below( 5 ) );
                if ( kind == 1 ) s = gen::mutate( r, s );
                if ( kind == 2 ) { static const std::vector<std::string> tails = { "x", "]", "}", ",", "1", "\"", " {}", "null", "\n@", "\xff" }; s += r.pick( tails ); }
                if ( kind == 3 && r.chance( 1, 3 ) ) s = gen::nested( r, 600, 3, true );
                ref::Result t = ref::read( s );
                if ( t.encodedSurrogate || t.loneSurrogate || t.nulEscape ) break;
                trace += where + "parse(" + vf::shown( s, 120 ) + ")";
                ParseResult p;
                if ( op == 3 && s.size() < 65000 ) { vf::writeAll( fileName( "in" ), s ); p = m.d.Parse( fileName( "in" ).c_str() ); }
                else p = parse( m.d, s );
                trace += std::string( "=" ) + statusName( p.status );
                if ( p.status == Status::kOk )
                {
                    if ( !t.ok ) { m.vague = true; break; } // C03's business
                    m.has = true;
                    m.node = t.root;
                    m.ordered = true;
                    vf::event( "parsed" );
                }
                else if ( p.errorLine != 0 ) { m.has = false; vf::event( "parse errors" ); }
                else if ( m.has && m.d.GetRootJsonValue() == nullptr ) m.has = false; // could not begin
                break;
            }
            case 4: case 5: case 6:
            {
                const Ops& o = *r.pick( kinds );
                Obj a = o.make( r );
                trace += where + "serialize(" + o.name + ")";
                Status s = o.serialize( m.d, a );
                if ( s != Status::kOk ) { m.vague = true; break; }
                m.has = true;
                m.node = o.node( a );
                m.ordered = false;
                vf::event( "serialized" );
                break;
            }
            case 7:
            {
                // a serialization that fails half way
                trace += where + "serialize(failing)";
                std::vector<failing::Picky> v( 3 );
                v[ r.below( 3 ) ].v = -1;
                Status s = m.d.SerializeFrom( v );
                trace += std::string( "=" ) + statusName( s );
                if ( s != Status::kOk ) { vf::event( "failed serializations" ); m.vague = true; }
                else { m.vague = true; }
                break;
            }
            case 8: case 9:
            {
                std::string f = fileName( "out" );
                vf::writeAll( f, "precious" );
                trace += where + "write";
                Status s = m.d.Write( f.c_str(), r.below( 4 ), ' ' );
                std::string out = vf::readAll( f );
                if ( !m.has )
                {
                    if ( s == Status::kOk ) vf::fail( "a document without a value is written with success | history: " + trace );
                    if ( out != "precious" ) vf::fail( "writing a document without a value changed the file | history: " + trace );
                    vf::event( "writes without a value" );
                    break;
                }
                if ( !finite( m.node ) ) break;
                if ( s != Status::kOk ) vf::fail( std::string( "writing fails with " ) + statusName( s ) + " | history: " + trace );
                ref::Result w = ref::read( out );
                if ( !w.ok ) vf::fail( "the written file is not a JSON text: " + vf::shown( out ) + " | history: " + trace );
                if ( w.duplicates ) vf::fail( "the written file repeats a name: " + vf::shown( out ) + " | history: " + trace );
                std::string e = compare( w.root, m.node, m.ordered );
                if ( !e.empty() ) vf::fail( "the written file is another document: " + e + " | history: " + trace );
                vf::event( "writes" );
                break;
            }
            case 10: case 11:
            {
                const Ops& o = *r.pick( kinds );
                Obj a = o.fresh(), b = o.fresh();
                trace += where + "read(" + o.name + ")";
                Status v = o.validate( m.d, a ), s = o.deserialize( m.d, a );
                Statuses want;
                if ( !m.has )
                {
                    if ( v == Status::kOk || s == Status::kOk ) vf::fail( "validating or deserializing without a value succeeds | history: " + trace );
                    vf::event( "reads without a value" );
                    break;
                }
                o.verdict( m.node, want );
                if ( ( s == Status::kOk ) != want.empty() || ( v == Status::kOk ) != want.empty() ) vf::fail( o.name + ": gives " + statusName( v ) + " " + statusName( s ) + ", should be " + names( want ) + " | history: " + trace );
                if ( want.empty() )
                {
                    o.load( m.node, b );
                    if ( !o.eq( a, b ) ) vf::fail( o.name + ": deserialized object differs | history: " + trace );
                    vf::event( "deserialized" );
                }
                break;
            }
            case 12:
            {
                // parses that cannot begin
                trace += where + "unreadable";
                int how = int( r.below( 4 ) );
                ParseResult p;
                Array<char> b;
                if ( how == 0 ) p = m.d.Parse( ( vf::st.dir + "/absent" ).c_str() );
                else if ( how == 1 ) p = m.d.Parse( b );
                else if ( how == 2 ) { b.AppendArrayElement( '[' ); b.AppendArrayElement( ']' ); p = m.d.Parse( b ); }
                else { vf::writeAll( fileName( "in" ), std::string( 65535 + r.below( 5 ), ' ' ) ); p = m.d.Parse( fileName( "in" ).c_str() ); }
                if ( p.status == Status::kOk ) vf::fail( "a parse that cannot begin succeeds | history: " + trace );
                if ( m.has && m.d.GetRootJsonValue() == nullptr ) m.has = false;
                break;
            }
            case 13:
            {
                // the object's own document again: reading and serializing
                if ( !m.has ) break;
                const Ops& o = *r.pick( kinds );
                Statuses want;
                o.verdict( m.node, want );
                if ( !want.empty() ) break;
                Obj a = o.fresh();
                if ( o.deserialize( m.d, a ) != Status::kOk ) break;
                trace += where + "reserialize(" + o.name + ")";
                if ( o.serialize( other.d, a ) != Status::kOk ) { other.vague = true; break; }
                other.has = true;
                other.vague = false;
                other.node = o.node( a );
                other.ordered = false;
                vf::event( "reserialized" );
                break;
            }
            case 14:
            {
                if ( !m.has || m.node.kind != ref::kObject ) break;
                const ObjectValue* o = static_cast<const StructuredData&>( m.d ).GetRootJsonValue()->AsJsonObjectValue();
                for ( auto& x : m.node.members )
                {
                    o->FindString( x.first.c_str() );
                    o->FindNumber( x.first.c_str() );
                    o->FindJsonValueArray( "absent" );
                }
                trace += where + "query";
                break;
            }
            case 15:
            {
                // written by one, read by the other
                if ( !m.has || !finite( m.node ) ) break;
                std::string f = fileName( "out" );
                trace += where + "copy";
                if ( m.d.Write( f.c_str() ) != Status::kOk ) break;
                std::string out = vf::readAll( f );
                ParseResult p = out.size() < 65535 ? other.d.Parse( f.c_str() ) : parse( other.d, out );
                if ( p.status != Status::kOk ) vf::fail( std::string( "a written document is refused with " ) + statusName( p.status ) + " | history: " + trace );
                other.has = true;
                other.vague = false;
                other.node = m.node;
                other.ordered = false;
                break;
            }
        }
        content( docs[ 0 ], trace );
        content( docs[ 1 ], trace );
    }
    vf::nontrivial( vf::hashStr( trace ) );
    vf::sample( trace );
}

static void c10() { vf::stream( "history", vf::scaled( 5000 ), [ & ]( uint64_t, Rng& r ) { history( r, r.range( 3, 40 ) ); } ); }

// ---- C02 -------------------------------------------------------------------

struct Step
{
    int         op;
    int         doc;
    std::string text;
    const Ops*  o;
    uint64_t    seed;
};

static void owned( Rng& r )
{
    std::vector<Step> steps;
    int n = r.range( 1, 14 );
    for ( int i = 0; i < n; i++ )
    {
        Step s;
        s.op = int( r.below( 14 ) );
        s.doc = int( r.below( 2 ) );
        s.o = r.pick( kinds );
        s.seed = r.next();
        gen::Opt o;
        s.text = gen::document( r, o );
        switch ( r.below( 6 ) )
        {
            case 0: s.text = gen::mutate( r, s.text ); break;
            case 1: s.text.resize( r.below( uint32_t( s.text.size() + 1 ) ) ); break;
            case 2: s.text = gen::bigObject( r, r.range( 1, 60 ), 2 ); break; // repeated names
            default: break;
        }
        if ( s.text.empty() ) s.text = " ";
        vf::event( "op " + std::to_string( s.op ) );
        steps.push_back( s );
    }
    std::string in = fileName( "in" ), out = fileName( "out" ), lastName;
    std::string trace;
    for ( auto& s : steps ) trace += " " + std::to_string( s.op ) + ":" + ( s.op < 3 ? vf::shown( s.text, 200 ) : s.o->name );
    size_t before = track::live, taken = track::total;
    {
        track::On on;
        StructuredData d[ 2 ];
        std::vector<std::pair<const Ops*, Obj>> kept;
        for ( auto& s : steps )
        {
            StructuredData& m = d[ s.doc ];
            Rng q( s.seed );
            switch ( s.op )
            {
                case 0: case 1: case 2: parse( m, s.text ); break;
                case 3: { track::Off off; vf::writeAll( in, s.text ); } m.Parse( in.c_str() ); break;
                case 4: case 5: s.o->serialize( m, s.o->make( q ) ); break;
                case 6: { Obj a = s.o->make( q ); s.o->serialize( m, a ); s.o->serialize( m, a ); s.o->deserialize( m, a ); break; }
                case 7: m.Write( out.c_str(), uint32( s.seed % 5 ), ' ' ); break;
                case 8: s.o->deserialize( m, s.o->make( q ) ); s.o->validate( m, s.o->fresh() ); break;
                case 9: kept.emplace_back( s.o, s.o->make( q ) ); s.o->deserialize( m, kept.back().second ); break;
                case 10: if ( !kept.empty() ) kept.back().first->deserialize( m, kept.back().second ); break;
                case 11:
                {
                    // named values, repeatedly
                    ObjectMap<Null> none;
                    m.SerializeFrom( none );
                    for ( int k = 0; k < 4; k++ ) s.o->serializeNamed( m.GetRootJsonValue(), k % 2 ? "same" : "other", s.o->make( q ) );
                    break;
                }
                case 12:
                {
                    std::vector<failing::Picky> v( 3 );
                    v[ 1 ].v = -1;
                    m.SerializeFrom( v );
                    failing::HM h;
                    h.two.v = -1;
                    m.SerializeFrom( h );
                    std::map<std::string, failing::PickyMember> pm;
                    pm[ "a" ].v = -1;
                    m.SerializeFrom( pm );
                    break;
                }
                case 13:
                {
                    // a container serialized again into the value that holds it
                    Array<types::Plain> a;
                    a.AppendArrayElement( types::Plain {} );
                    m.SerializeFrom( a );
                    C4::Json::Serialize( m.GetRootJsonValue(), a );
                    ObjectMap<double> om;
                    auto* e = new ObjectMapElement<double>;
                    e->name = "a name that needs memory of its own, for sure";
                    om.InsertMapElement( e );
                    m.SerializeFrom( om );
                    C4::Json::Serialize( m.GetRootJsonValue(), om );
                    std::vector<std::string> v { "x", "y" };
                    m.SerializeFrom( v );
                    C4::Json::Serialize( m.GetRootJsonValue(), v );
                    std::map<std::string, std::string> sm { { "x", "y" } };
                    m.SerializeFrom( sm );
                    C4::Json::Serialize( m.GetRootJsonValue(), sm );
                    break;
                }
            }
        }
    }
    vf::st.evaluations++;
    vf::event( "blocks taken", track::total - taken );
    if ( track::live != before ) vf::fail( std::to_string( track::live - before ) + " blocks are still held after everything was destroyed | history:" + trace );
    vf::nontrivial( vf::hashStr( trace ) );
    vf::sample( trace );
}

static void c02()
{
    track::install();
    // warm up what is allocated once
    for ( const Ops* o : kinds ) { Rng r( 1 ); StructuredData d; o->serialize( d, o->make( r ) ); d.Write( fileName( "out" ).c_str() ); }
    vf::stream( "owned", vf::scaled( 30000 ), [ & ]( uint64_t, Rng& r ) { owned( r ); } );
    // texts cut at every byte
    vf::stream( "cuts", vf::scaled( 500 ), [ & ]( uint64_t, Rng& r ) {
        std::string s = gen::document( r );
        if ( s.size() > 600 ) s.resize( 600 );
        for ( size_t k = 1; k <= s.size(); k++ )
        {
            std::string t = s.substr( 0, k );
            size_t before = track::live;
            { track::On on; StructuredData d; parse( d, t ); parse( d, s ); parse( d, t ); }
            vf::st.evaluations++;
            if ( track::live != before ) vf::fail( std::to_string( track::live - before ) + " blocks are still held after parsing a text cut off: " + vf::shown( t, 400 ) );
        }
        vf::nontrivial( vf::hashStr( s ) );
    } );
    // documents and objects of many elements
    vf::stream( "large", vf::scaled( 160 ), [ & ]( uint64_t i, Rng& r ) {
        std::string s = gen::large( r, r.range( 50, i % 8 ? 1200 : 6000 ) ), bad = s, out = fileName( "out" );
        switch ( r.below( 4 ) )
        {
            case 0: bad.pop_back(); break;
            case 1: bad += "]"; break;
            case 2: bad.resize( r.below( uint32_t( bad.size() ) ) + 1 ); break;
            default: bad[ r.below( uint32_t( bad.size() ) ) ] = '\x01'; break;
        }
        int n = r.range( 50, 1500 );
        size_t before = track::live, taken = track::total;
        {
            track::On on;
            StructuredData d;
            parse( d, s );
            if ( i % 2 ) parse( d, bad );
            if ( i % 3 ) { d.Write( out.c_str() ); d.Parse( out.c_str() ); }
            switch ( i % 10 )
            {
                case 0: { std::vector<std::string> v( size_t( n ), "a text that does not fit into a buffer of its own" ), w; d.SerializeFrom( v ); d.SerializeFrom( v ); d.DeserializeTo( w ); d.DeserializeTo( w ); break; }
                case 1: { std::map<std::string, std::vector<double>> m, k; for ( int x = 0; x < n; x++ ) m[ std::to_string( x ) ] = { 1, 2 }; d.SerializeFrom( m ); d.SerializeFrom( m ); d.DeserializeTo( k ); d.DeserializeTo( k ); break; }
                case 2: { Array<String<>> a, b; for ( int x = 0; x < n; x++ ) a.AppendArrayElement( String<>( "a text that does not fit into a buffer of its own" ) ); d.SerializeFrom( a ); C4::Json::Serialize( d.GetRootJsonValue(), a ); d.DeserializeTo( b ); d.DeserializeTo( b ); break; }
                case 3: case 4:
                {
                    ObjectMap<String<>> m, k;
                    for ( int x = 0; x < n; x++ ) { auto* e = new ObjectMapElement<String<>>; e->name = std::to_string( x * 7919 % 100003 ).c_str(); e->data = "a text that does not fit into a buffer of its own"; if ( !m.InsertMapElement( e ) ) delete e; }
                    d.SerializeFrom( m );
                    if ( i % 10 == 4 ) C4::Json::Serialize( d.GetRootJsonValue(), m );
                    d.DeserializeTo( k );
                    d.DeserializeTo( k );
                    break;
                }
                case 5:
                {
                    // fails at the last element
                    std::vector<failing::Picky> v( size_t( n ), failing::Picky { 1 } );
                    v.back().v = -1;
                    d.SerializeFrom( v );
                    break;
                }
                case 6: { ObjectMap<Null> none; d.SerializeFrom( none ); const std::vector<double> three( 3, 1.0 ); for ( int x = 0; x < n; x++ ) { const std::string k = std::to_string( x % 300 ); const char* name = k.c_str(); C4::Json::SerializeProto( d.GetRootJsonValue(), name, three ); } break; }
                case 7: { types::Deep a, b; Rng q( i ); types::Model<types::Deep>::make( q, a ); for ( int x = 0; x < n; x++ ) a.plains.AppendArrayElement( types::Plain {} ); d.SerializeFrom( a ); d.DeserializeTo( b ); d.DeserializeTo( b ); break; }
                default: parse( d, s ); parse( d, s ); break;
            }
            d.Write( out.c_str(), 2, ' ' );
        }
        vf::st.evaluations++;
        vf::event( "blocks taken", track::total - taken );
        if ( track::live != before ) vf::fail( std::to_string( track::live - before ) + " blocks are still held after a large document was destroyed: variant " + std::to_string( i % 10 ) + " of " + std::to_string( n ) + ", " + vf::shown( s, 200 ) );
        vf::nontrivial( vf::hashStr( s, i ) );
    } );
    // one document, used many times, does not grow
    vf::stream( "reuse", 40, [ & ]( uint64_t, Rng& r ) {
        std::string s = gen::document( r ), t = gen::mutate( r, s );
        const Ops& o = *r.pick( kinds );
        StructuredData d;
        uint64_t seed = r.next();
        size_t held = 0;
        for ( int k = 0; k < 40; k++ )
        {
            { track::On on; Rng q( seed ); parse( d, s ); parse( d, t ); o.serialize( d, o.make( q ) ); o.deserialize( d, o.fresh() ); }
            if ( k == 3 ) held = track::live;
            if ( k > 3 && track::live != held ) vf::fail( o.name + ": a document holds more blocks each time it is used" );
            vf::st.evaluations++;
        }
        { track::On on; parse( d, "1" ); }
    } );
}

// ---- C24 -------------------------------------------------------------------

// A document that has something of both.
static ref::Node cross( const ref::Node& a, const ref::Node& b, Rng& r )
{
    if ( a.kind != b.kind || r.chance( 1, 8 ) ) return r.chance( 1, 2 ) ? a : b;
    ref::Node n = types::leaf( a.kind );
    if ( a.kind == ref::kObject )
    {
        for ( auto& m : a.members )
        {
            const ref::Node* other = nullptr;
            for ( auto& k : b.members ) if ( k.first == m.first ) other = &k.second;
            if ( other ) n.members.emplace_back( m.first, cross( m.second, *other, r ) );
            else if ( r.chance( 2, 3 ) )
            {
                // a known name with another value of its kind, taken from anywhere
                const ref::Node* v = &m.second;
                if ( r.chance( 1, 2 ) && !b.members.empty() ) { const ref::Node& x = b.members[ r.below( uint32_t( b.members.size() ) ) ].second; if ( x.kind == v->kind ) v = &x; }
                n.members.emplace_back( m.first, *v );
            }
        }
        for ( auto& k : b.members )
        {
            bool have = false;
            for ( auto& m : a.members ) have = have || m.first == k.first;
            if ( !have && r.chance( 1, 2 ) ) n.members.insert( n.members.begin() + long( r.below( uint32_t( n.members.size() + 1 ) ) ), k );
        }
        return n;
    }
    if ( a.kind == ref::kArray )
    {
        size_t k = r.below( uint32_t( a.items.size() + 1 ) ), j = r.below( uint32_t( b.items.size() + 1 ) );
        n.items.assign( a.items.begin(), a.items.begin() + long( k ) );
        n.items.insert( n.items.end(), b.items.begin() + long( j ), b.items.end() );
        return n;
    }
    return r.chance( 1, 2 ) ? a : b;
}

// Leaves out names of which the type allows it.
static void thin( const Ops& o, ref::Node& n, Rng& r )
{
    std::vector<ref::Node*> all;
    collect( n, all );
    for ( int tries = 0; tries < 8; tries++ )
    {
        ref::Node& x = *all[ r.below( uint32_t( all.size() ) ) ];
        if ( x.kind != ref::kObject || x.members.empty() ) continue;
        ref::Node keep = x;
        x.members.erase( x.members.begin() + long( r.below( uint32_t( x.members.size() ) ) ) );
        Statuses s;
        o.verdict( n, s );
        if ( !s.empty() ) x = keep;
        all.clear();
        collect( n, all );
    }
}

// One object takes one document after another.
static void used( const Ops& o, Rng& r )
{
    uint64_t seed = r.next();
    Rng ra( seed ), rb( seed );
    Obj a = o.make( ra ), model = o.make( rb );
    std::string history = o.name + " " + vf::shown( render( o.node( a ) ), 300 );
    uint64_t h = vf::hashStr( history );
    int good = 0;
    for ( int k = r.range( 1, 5 ); k > 0; k-- )
    {
        ref::Node n = o.node( o.make( r ) );
        if ( r.chance( 3, 4 ) ) n = r.chance( 1, 2 ) ? cross( o.node( a ), n, r ) : cross( n, o.node( a ), r );
        if ( r.chance( 1, 2 ) ) thin( o, n, r );
        if ( r.chance( 1, 4 ) ) damage( n, r );
        std::string text = render( n );
        Statuses want;
        o.verdict( n, want );
        Status s;
        bool under = r.chance( 1, 4 );
        {
            StructuredData d;
            if ( parse( d, under ? "{\"it\":" + text + "}" : text ).status != Status::kOk ) { vf::event( "document refused" ); return; }
            s = under ? o.deserializeNamed( d.GetRootJsonValue(), "it", a ) : o.deserialize( d, a );
        }
        history += " <- " + vf::shown( text, 300 );
        vf::st.evaluations++;
        if ( want.empty() ? s != Status::kOk : !want.count( s ) ) vf::fail( std::string( "deserialization into an object in use gives " ) + statusName( s ) + ", should be " + names( want ) + " | " + history );
        if ( s != Status::kOk )
        {
            // how much was taken is open; the object continues from what it holds
            vf::event( "documents that do not fit" );
            model = o.fresh();
            o.load( o.node( a ), model );
        }
        else
        {
            bool new_ = true;
            { Obj f = o.fresh(); o.load( n, f ); new_ = o.eq( f, a ); }
            o.update( n, model );
            good++;
            vf::event( new_ ? "objects equal to a fresh one afterwards" : "objects that kept something" );
        }
        if ( !o.eq( a, model ) ) vf::fail( "an object in use becomes " + vf::shown( render( o.node( a ) ), 500 ) + ", should become " + vf::shown( render( o.node( model ) ), 500 ) + " | " + history );
        h = vf::hashStr( text, h );
    }
    if ( good )
    {
        // a copy of everything in a document is read back as the object
        StructuredData d;
        if ( o.serialize( d, a ) != Status::kOk ) vf::fail( "an object in use cannot be serialized | " + history );
        uint64_t visited = 0;
        std::string e = compare( d.GetRootJsonValue(), o.node( model ), visited );
        if ( !e.empty() ) vf::fail( "an object in use is serialized as something else: " + e + " | " + history );
        vf::nontrivial( h );
    }
    vf::event( "objects of " + o.name );
    vf::sample( history );
}

template <class T> static std::map<std::string, const void*> places( const ObjectMap<T>& m )
{
    std::map<std::string, const void*> p;
    for ( auto* e : m ) p[ str( e->name ) ] = &e->data;
    return p;
}
template <class T> static std::map<std::string, const void*> places( const std::map<std::string, T>& m )
{
    std::map<std::string, const void*> p;
    for ( auto& e : m ) p[ e.first ] = &e.second;
    return p;
}

// Elements of a map that takes further documents stay where they are.
template <class M> static void inPlace( const char* name, Rng& r )
{
    M m, n;
    types::Model<M>::make( r, m );
    types::Model<M>::make( r, n );
    auto before = places( m );
    ref::Node doc = cross( types::Model<M>::node( m ), types::Model<M>::node( n ), r );
    if ( r.chance( 1, 3 ) ) damage( doc, r );
    StructuredData d;
    if ( parse( d, render( doc ) ).status != Status::kOk ) return;
    d.DeserializeTo( m );
    auto after = places( m );
    vf::st.evaluations++;
    for ( auto& p : before )
    {
        auto q = after.find( p.first );
        if ( q == after.end() ) vf::fail( std::string( name ) + ": deserialization removes the name " + vf::shown( p.first ) + " | " + render( doc ) );
        if ( q->second != p.second ) vf::fail( std::string( name ) + ": deserialization moves the element of " + vf::shown( p.first ) + " | " + render( doc ) );
        vf::event( "elements that stayed" );
    }
}

static void c24()
{
    size_t n = kinds.size();
    vf::stream( "used", n * vf::scaled( 250 ), [ & ]( uint64_t i, Rng& r ) { used( *kinds[ i % n ], r ); } );
    vf::stream( "places", vf::scaled( 2000 ), [ & ]( uint64_t i, Rng& r ) {
        switch ( i % 8 )
        {
            case 0: inPlace<ObjectMap<double>>( "ObjectMap<double>", r ); break;
            case 1: inPlace<ObjectMap<String<>>>( "ObjectMap<String<>>", r ); break;
            case 2: inPlace<ObjectMap<types::MemberStyle>>( "ObjectMap<MemberStyle>", r ); break;
            case 3: inPlace<ObjectMap<ObjectMap<bool>>>( "ObjectMap<ObjectMap<bool>>", r ); break;
            case 4: inPlace<std::map<std::string, double>>( "std::map<double>", r ); break;
            case 5: inPlace<std::map<std::string, std::string>>( "std::map<std::string>", r ); break;
            case 6: inPlace<std::map<std::string, types::Plain>>( "std::map<Plain>", r ); break;
            case 7: inPlace<std::map<std::string, std::map<std::string, Null>>>( "std::map<std::map<Null>>", r ); break;
        }
    } );
}

// Documents made by serialization, as they are written.
static void c06()
{
    size_t n = kinds.size();
    vf::stream( "roundtrip", n * vf::scaled( 60 ), [ & ]( uint64_t i, Rng& r ) { roundTrip( *kinds[ i % n ], r ); } );
    vf::stream( "named", vf::scaled( 1000 ), [ & ]( uint64_t, Rng& r ) { named( r ); } );
    vf::stream( "appended", vf::scaled( 300 ), [ & ]( uint64_t, Rng& r ) { appended( r ); } );
}

static void all()
{
    for ( auto& o : ops::all() ) kinds.push_back( o.get() );
    std::sort( kinds.begin(), kinds.end(), []( const Ops* a, const Ops* b ) { return a->name < b->name; } );
    if ( vf::st.prop == "C02" ) c02();
    else if ( vf::st.prop == "C06" ) c06();
    else if ( vf::st.prop == "C08" ) c08();
    else if ( vf::st.prop == "C09" ) c09();
    else if ( vf::st.prop == "C10" ) c10();
    else if ( vf::st.prop == "C24" ) c24();
    else vf::harnessError( "no such property here" );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
