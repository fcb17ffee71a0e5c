// C14: Terathon::Map against an ideal ordered map, over every balanced tree shape up to a size and random histories.
#include "common.h"
#include "TSMap.h"
#include "TSString.h"

#include <algorithm>
#include <set>

using namespace Terathon;
using vf::Rng;

template <class K> struct El;

// Every element ever made, and how often it was destroyed.
struct Life
{
    std::vector<int> deaths;
    int live = 0;
};
static Life life;

template <class K> struct El : public MapElement<El<K>>
{
    typedef K KeyType;
    K key;
    int k;
    int id;
    uint64_t canary = 0x5afe5afe5afe5afeULL;
    El( const K& v, int n ) : key( v ), k( n ), id( int( life.deaths.size() ) ) { life.deaths.push_back( 0 ); life.live++; }
    ~El() { if ( canary != 0x5afe5afe5afe5afeULL ) vf::fail( "an element is destroyed twice" ); canary = 0; life.deaths[ size_t( id ) ]++; life.live--; }
    const K& GetKey() const { return key; }
};

// Keys are numbers 0..; keyOf maps them monotonically to the key type.
template <class K> K keyOf( int n );
template <> int32 keyOf<int32>( int n ) { return n * 3 - 1000; }

static const std::vector<std::string>& words()
{
    static std::vector<std::string> w;
    if ( w.empty() )
    {
        std::set<std::string> s;
        const char* parts[] = { "", "a", "b", "A", "Z", "_", "\x7f", "\x80", "\xff", "aa", "ab", "0", "~", " ", "aaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaa" };
        for ( auto a : parts ) for ( auto b : parts ) for ( auto c : parts ) s.insert( std::string( a ) + b + c );
        w.assign( s.begin(), s.end() );
    }
    return w;
}
template <> String<> keyOf<String<>>( int n ) { return String<>( words()[ size_t( n ) % words().size() ].c_str() ); }

template <class K> struct World
{
    typedef El<K> E;
    typedef Map<E> M;
    M* map[ 2 ] = { new M, new M };
    std::map<int, E*> model[ 2 ];
    std::vector<E*> loose;
    std::vector<E*> all; // those not destroyed
    std::string trace;

    World() { life = Life(); }
    ~World() { delete map[ 0 ]; delete map[ 1 ]; }

    [[noreturn]] void bad( const std::string& what ) { vf::fail( what + "; after " + vf::shown( trace, 700 ) ); }
    void note( const char* op, int a = -1, int b = -1 )
    {
        trace += op;
        if ( a >= 0 ) trace += " " + std::to_string( a );
        if ( b >= 0 ) trace += " " + std::to_string( b );
        trace += "; ";
    }

    E* make( int k ) { E* e = new E( keyOf<K>( k ), k ); all.push_back( e ); loose.push_back( e ); return e; }
    int where( E* e ) { for ( int m = 0; m < 2; m++ ) { auto i = model[ m ].find( e->k ); if ( i != model[ m ].end() && i->second == e ) return m; } return -1; }
    void take( E* e )
    {
        int w = where( e );
        if ( w >= 0 ) model[ w ].erase( e->k );
        else loose.erase( std::find( loose.begin(), loose.end(), e ) );
    }

    // --- operations
    bool insert( int m, E* e )
    {
        note( "insert", m, e->k );
        bool want = !model[ m ].count( e->k );
        bool got = map[ m ]->InsertMapElement( e );
        if ( got != want ) bad( "InsertMapElement returns the wrong value" );
        if ( want ) { take( e ); model[ m ][ e->k ] = e; }
        return got;
    }
    void replace( int m, E* e )
    {
        note( "replace", m, e->k );
        auto i = model[ m ].find( e->k );
        E* old = i == model[ m ].end() || i->second == e ? nullptr : i->second;
        E* got = map[ m ]->InsertReplaceMapElement( e );
        if ( got != old ) bad( "InsertReplaceMapElement does not return the replaced element" );
        if ( where( e ) != m ) take( e );
        model[ m ][ e->k ] = e;
        if ( old ) loose.push_back( old );
    }
    void reserve( int m, E* e )
    {
        note( "reserve", m, e->k );
        MapReservation r;
        bool want = !model[ m ].count( e->k );
        bool got = map[ m ]->ReserveMapElement( e->GetKey(), &r );
        if ( got != want ) bad( "ReserveMapElement returns the wrong value" );
        if ( got && where( e ) < 0 ) { map[ m ]->InsertMapElement( e, &r ); take( e ); model[ m ][ e->k ] = e; }
    }
    void remove( E* e, bool detach )
    {
        int w = where( e );
        note( detach ? "detach" : "remove", w, e->k );
        if ( detach ) e->Detach();
        else if ( w >= 0 ) map[ w ]->RemoveMapElement( e );
        if ( w >= 0 ) { model[ w ].erase( e->k ); loose.push_back( e ); }
    }
    void destroy( E* e )
    {
        note( "delete", where( e ), e->k );
        take( e );
        all.erase( std::find( all.begin(), all.end(), e ) );
        delete e;
    }
    void removeAll( int m )
    {
        note( "removeall", m );
        map[ m ]->RemoveAllMapElements();
        for ( auto& i : model[ m ] ) loose.push_back( i.second );
        model[ m ].clear();
    }
    void purge( int m, bool whole )
    {
        note( whole ? "destroymap" : "purge", m );
        std::vector<int> ids;
        int before = life.live;
        for ( auto& i : model[ m ] ) { ids.push_back( i.second->id ); all.erase( std::find( all.begin(), all.end(), i.second ) ); }
        model[ m ].clear();
        if ( whole ) { delete map[ m ]; map[ m ] = new M; }
        else map[ m ]->PurgeMap();
        for ( int id : ids ) if ( life.deaths[ size_t( id ) ] != 1 ) bad( "purging destroyed an element " + std::to_string( life.deaths[ size_t( id ) ] ) + " times" );
        if ( life.live != before - int( ids.size() ) ) bad( "purging destroyed elements of others" );
    }

    // --- the monitor
    int walk( int m, E* e, std::vector<E*>& out, std::string* shape )
    {
        if ( !e ) { if ( shape ) *shape += '.'; return 0; }
        if ( e->canary != 0x5afe5afe5afe5afeULL ) bad( "the tree holds a destroyed element" );
        if ( out.size() > model[ m ].size() + 1 ) bad( "the tree holds more nodes than elements" );
        if ( shape ) *shape += '(';
        int l = walk( m, e->GetLeftSubnode(), out, shape );
        out.push_back( e );
        int r = walk( m, e->GetRightSubnode(), out, shape );
        if ( shape ) *shape += ')';
        if ( l - r > 1 || r - l > 1 ) bad( "unbalanced node: heights " + std::to_string( l ) + " and " + std::to_string( r ) + " below key " + std::to_string( e->k ) );
        return 1 + ( l > r ? l : r );
    }

    uint64_t check( bool deep = true )
    {
        uint64_t h = 0;
        for ( int m = 0; m < 2; m++ )
        {
            auto& mod = model[ m ];
            std::vector<E*> order;
            std::string shape;
            int height = walk( m, map[ m ]->GetRootMapElement(), order, &shape );
            h = vf::hashStr( shape, h ? h : 0xcbf29ce484222325ULL );
            if ( order.size() != mod.size() ) bad( "the map holds " + std::to_string( order.size() ) + " elements, not " + std::to_string( mod.size() ) );
            double n = double( mod.size() ), bound = 1;
            { double a = 1, b = 2; while ( b <= n + 1 ) { double c = a + b; a = b; b = c; bound++; } }
            if ( mod.size() && height > bound ) bad( "height " + std::to_string( height ) + " is over the AVL bound" );
            size_t i = 0;
            for ( auto& p : mod ) if ( order[ i++ ] != p.second ) bad( "elements are out of key order, or the wrong element is held" );
            if ( map[ m ]->Empty() != mod.empty() ) bad( "Empty is wrong" );
            if ( map[ m ]->GetMapElementCount() != int32( mod.size() ) ) bad( "GetMapElementCount is wrong" );
            if ( map[ m ]->GetFirstMapElement() != ( mod.empty() ? nullptr : mod.begin()->second ) ) bad( "GetFirstMapElement is wrong" );
            if ( map[ m ]->GetLastMapElement() != ( mod.empty() ? nullptr : mod.rbegin()->second ) ) bad( "GetLastMapElement is wrong" );
            i = 0;
            for ( E* e : *map[ m ] ) { if ( i >= order.size() || e != order[ i ] ) bad( "range iteration is wrong" ); i++; }
            if ( i != order.size() ) bad( "range iteration ends early" );
            {
                auto a = map[ m ]->begin(), b = map[ m ]->begin(), z = map[ m ]->end();
                if ( !( a == b ) || a != b || ( a == z ) != order.empty() || ( a != z ) == order.empty() ) bad( "iterators compare wrongly" );
                if ( !order.empty() ) { auto& c = ++a; if ( &c != &a || a == b || !( a != b ) || ( order.size() == 1 ) != ( a == z ) ) bad( "iterators compare wrongly" ); }
            }
            for ( i = 0; i < order.size(); i++ )
            {
                if ( order[ i ]->GetNextMapElement() != ( i + 1 < order.size() ? order[ i + 1 ] : nullptr ) ) bad( "GetNextMapElement is wrong" );
                if ( order[ i ]->GetPreviousMapElement() != ( i ? order[ i - 1 ] : nullptr ) ) bad( "GetPreviousMapElement is wrong" );
                if ( order[ i ]->GetOwningMap() != map[ m ] || !map[ m ]->Member( order[ i ] ) || map[ 1 - m ]->Member( order[ i ] ) ) bad( "membership is wrong" );
                if ( deep && map[ m ]->FindMapElement( order[ i ]->GetKey() ) != order[ i ] ) bad( "FindMapElement misses an element that is present" );
            }
            if ( order.size() > 1000 )
            {
                for ( size_t at : { order.size() - 1, order.size() / 2, order.size() } ) if ( ( *map[ m ] )[ machine( at ) ] != ( at < order.size() ? order[ at ] : nullptr ) ) bad( "operator [] is wrong" );
            }
            if ( deep && order.size() < 64 )
            {
                for ( i = 0; i <= order.size() + 1; i++ ) if ( ( *map[ m ] )[ machine( i ) ] != ( i < order.size() ? order[ i ] : nullptr ) ) bad( "operator [] is wrong" );
            }
        }
        for ( E* e : loose )
        {
            if ( e->canary != 0x5afe5afe5afe5afeULL ) bad( "an element outside the maps was destroyed" );
            if ( e->GetOwningMap() || map[ 0 ]->Member( e ) || map[ 1 ]->Member( e ) ) bad( "a removed element still claims a map" );
            if ( e->GetNextMapElement() || e->GetPreviousMapElement() || e->GetLeftSubnode() || e->GetRightSubnode() ) bad( "a removed element is still linked" );
        }
        if ( size_t( life.live ) != all.size() ) bad( "elements were destroyed or created by an operation" );
        vf::st.evaluations++;
        return h;
    }
    void absent( int k )
    {
        K key = keyOf<K>( k );
        for ( int m = 0; m < 2; m++ )
        {
            auto i = model[ m ].find( k );
            E* want = i == model[ m ].end() ? nullptr : i->second;
            if ( map[ m ]->FindMapElement( key ) != want ) bad( "FindMapElement finds what is absent, or misses what is present (key " + std::to_string( k ) + ")" );
        }
    }
    void clear()
    {
        trace += "end; ";
        purge( 0, true );
        purge( 1, true );
        while ( !loose.empty() ) destroy( loose.back() );
        if ( life.live != 0 ) bad( "elements remain at the end" );
        for ( int d : life.deaths ) if ( d != 1 ) bad( "an element was destroyed " + std::to_string( d ) + " times" );
    }
};

// --- every AVL shape -----------------------------------------------------------

struct Shape { int left, right, height, size; }; // indices into shapes, -1 empty
static std::vector<Shape> shapes;
static std::vector<std::vector<int>> bySize;

static void makeShapes( int max )
{
    bySize.assign( size_t( max ) + 1, {} );
    bySize[ 0 ].push_back( -1 );
    auto h = []( int s ) { return s < 0 ? 0 : shapes[ size_t( s ) ].height; };
    for ( int n = 1; n <= max; n++ )
        for ( int l = 0; l < n; l++ )
            for ( int a : bySize[ size_t( l ) ] )
                for ( int b : bySize[ size_t( n - 1 - l ) ] )
                    if ( abs( h( a ) - h( b ) ) <= 1 ) { shapes.push_back( { a, b, 1 + std::max( h( a ), h( b ) ), n } ); bySize[ size_t( n ) ].push_back( int( shapes.size() ) - 1 ); }
}

// Keys 1, 3, 5, ... of the shape in level order: inserting them in this order gives the shape without a rotation.
static std::vector<int> levelOrder( int shape )
{
    std::vector<int> out;
    std::vector<std::pair<int, int>> q; // shape, first rank
    if ( shape >= 0 ) q.push_back( { shape, 0 } );
    for ( size_t i = 0; i < q.size(); i++ )
    {
        auto [ s, base ] = q[ i ];
        const Shape& sh = shapes[ size_t( s ) ];
        int ls = sh.left < 0 ? 0 : shapes[ size_t( sh.left ) ].size;
        out.push_back( 2 * ( base + ls ) + 1 );
        if ( sh.left >= 0 ) q.push_back( { sh.left, base } );
        if ( sh.right >= 0 ) q.push_back( { sh.right, base + ls + 1 } );
    }
    return out;
}

// Op number o on a map that started with n keys: remove key 2o+1 (o<n), insert key 2(o-n) (o-n<=n), replace key (rest).
template <class K> static void step( World<K>& w, int n, int o )
{
    if ( o < n )
    {
        auto i = w.model[ 0 ].find( 2 * o + 1 );
        if ( i == w.model[ 0 ].end() ) { typename World<K>::E* e = w.make( 2 * o + 1 ); w.insert( 0, e ); } // put back
        else if ( o % 3 == 0 ) w.destroy( i->second );
        else w.remove( i->second, o % 3 == 1 );
    }
    else if ( o <= 2 * n )
    {
        int k = 2 * ( o - n );
        auto i = w.model[ 0 ].find( k );
        if ( i != w.model[ 0 ].end() ) w.remove( i->second, false );
        else if ( k % 4 == 0 ) w.insert( 0, w.make( k ) );
        else w.replace( 0, w.make( k ) );
    }
    else
    {
        int k = 2 * ( o - 2 * n - 1 ) + 1;
        auto e = w.make( k );
        w.insert( 1, e );
        w.replace( 0, e );
    }
}

static void exhaust( int n, int steps, int random )
{
    int ops = 3 * n + 1;
    uint64_t per = 1;
    for ( int i = 0; i < steps; i++ ) per *= uint64_t( ops );
    auto& list = bySize[ size_t( n ) ];
    // one case is a shape and a first operation
    vf::stream( "shape" + std::to_string( n ) + "x" + std::to_string( steps ), list.size() * uint64_t( ops ), [ & ]( uint64_t i, Rng& r ) {
        auto keys = levelOrder( list[ i / uint64_t( ops ) ] );
        uint64_t rest = per / uint64_t( ops );
        for ( uint64_t c = 0; c < rest; c++ )
        {
            World<int32> w;
            for ( int k : keys ) w.insert( 0, w.make( k ) );
            if ( c == 0 ) w.check( false );
            step( w, n, int( i % uint64_t( ops ) ) );
            if ( c == 0 ) vf::nontrivial( w.check() ^ vf::hashBytes( &i, 8 ) );
            uint64_t code = c;
            for ( int s = 1; s < steps; s++ ) { step( w, n, int( code % uint64_t( ops ) ) ); code /= uint64_t( ops ); w.check( s + 1 == steps ); }
            for ( int s = 0; s < random; s++ ) { step( w, n, r.range( 0, ops - 1 ) ); vf::nontrivial( w.check( false ) ); }
            w.clear();
            vf::event( "steps observed", uint64_t( steps + random ) );
        }
        if ( i < 3 && n == 9 ) { World<int32> w; for ( int k : keys ) w.insert( 0, w.make( k ) ); step( w, n, int( i % uint64_t( ops ) ) ); vf::sample( w.trace ); w.clear(); }
    } );
}

template <class K> static void history( uint64_t i, Rng& r )
{
    World<K> w;
    typedef typename World<K>::E E;
    int span = r.chance( 1, 3 ) ? r.range( 3, 12 ) : r.range( 12, 120 );
    int steps = r.range( 10, 160 );
    int bias = r.range( 0, 3 ); // phases of growth and of decline
    auto any = [ & ]( std::vector<E*>& v ) -> E* { return v.empty() ? nullptr : v[ r.below( uint32_t( v.size() ) ) ]; };
    auto member = [ & ]( int m ) -> E* {
        if ( w.model[ m ].empty() ) return nullptr;
        auto it = w.model[ m ].begin();
        std::advance( it, r.below( uint32_t( w.model[ m ].size() ) ) );
        return it->second;
    };
    for ( int s = 0; s < steps; s++ )
    {
        int m = int( r.below( 2 ) );
        E* e;
        uint32_t op = r.below( 100 );
        bool grow = bias == 0 || ( bias == 1 && s < steps / 2 ) || ( bias == 2 && ( s / 20 ) % 2 == 0 );
        if ( op < ( grow ? 45u : 20u ) ) w.insert( m, w.make( r.range( 0, span ) ) );
        else if ( op < 52 ) w.replace( m, w.make( r.range( 0, span ) ) );
        else if ( op < 57 ) { if ( ( e = any( w.all ) ) ) w.insert( m, e ); }
        else if ( op < 63 ) { if ( ( e = any( w.all ) ) ) w.replace( m, e ); }
        else if ( op < 67 ) { if ( ( e = any( w.loose ) ) ) w.reserve( m, e ); }
        else if ( op < 70 ) w.reserve( m, w.make( r.range( 0, span ) ) );
        else if ( op < 80 ) { if ( ( e = member( m ) ) ) w.remove( e, false ); }
        else if ( op < 87 ) { if ( ( e = any( w.all ) ) ) w.remove( e, true ); }
        else if ( op < 94 ) { if ( ( e = any( w.all ) ) ) w.destroy( e ); }
        else if ( op == 94 && r.chance( 1, 4 ) ) w.removeAll( m );
        else if ( op == 95 && r.chance( 1, 4 ) ) w.purge( m, false );
        else if ( op == 96 && r.chance( 1, 6 ) ) w.purge( m, true );
        uint64_t h = w.check( ( s & 3 ) == 0 || s + 1 == steps );
        vf::nontrivial( h );
        w.absent( r.range( 0, span + 1 ) );
        vf::event( "steps observed" );
    }
    for ( int k = 0; k <= span + 1; k++ ) w.absent( k );
    w.clear();
    (void)i;
}

// Long runs in adverse orders, checked at intervals.
static void large( uint64_t i, Rng& r, int n, int interval )
{
    World<int32> w;
    auto key = [ & ]( int j ) {
        switch ( i % 6 )
        {
            case 0: return j;
            case 1: return n - 1 - j;
            case 2: return j & 1 ? n - 1 - j / 2 : j / 2;
            case 3: return j & 1 ? n / 2 + j / 2 : n / 2 - j / 2;
            case 4: return int( ( uint64_t( j ) * 7919 ) % uint64_t( n ) );
            default: return int( ( uint64_t( j ) * 1597 + ( j & 7 ) ) % uint64_t( n ) );
        }
    };
    w.trace = "large " + std::to_string( i );
    std::string head = w.trace;
    for ( int j = 0; j < n; j++ ) { w.insert( 0, w.make( key( j ) ) ); w.trace = head; if ( j % interval == interval - 1 ) w.check(); }
    w.check();
    for ( int j = 0; j < n; j++ )
    {
        int k = i / 6 % 3 == 0 ? key( j ) : i / 6 % 3 == 1 ? key( n - 1 - j ) : r.range( 0, n - 1 );
        auto it = w.model[ 0 ].find( k );
        if ( it == w.model[ 0 ].end() ) continue;
        if ( j & 1 ) w.destroy( it->second );
        else w.insert( 1, it->second );
        w.trace = head;
        if ( j % interval == interval - 1 ) vf::nontrivial( w.check() );
    }
    w.check();
    w.clear();
}

static void all()
{
    bool th = vf::st.scale > 2;
    makeShapes( th ? 22 : 17 );
    for ( int n = 0; n <= ( th ? 9 : 7 ); n++ ) exhaust( n, 3, 1 );
    for ( int n = 7; n <= ( th ? 14 : 12 ); n++ ) exhaust( n, 2, 2 );
    for ( int n = 12; n <= ( th ? 22 : 16 ); n++ ) exhaust( n, 1, 8 );
    vf::stream( "history-int", vf::scaled( 60000 ), []( uint64_t i, Rng& r ) { history<int32>( i, r ); } );
    vf::stream( "history-string", vf::scaled( 20000 ), []( uint64_t i, Rng& r ) { history<String<>>( i, r ); } );
    vf::stream( "large", vf::scaled( 36 ), []( uint64_t i, Rng& r ) { large( i, r, int( 2000 + 500 * ( i % 8 ) ), 500 ); } );
    vf::stream( "huge", vf::st.scale > 2 ? 36 : 8, []( uint64_t i, Rng& r ) { large( i * 5, r, 66000 + int( i ) * 1000, 20000 ); } );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
