// C16: Array<T,N> against std::vector, with elements that watch their own lifetimes.
#include "common.h"
#include "TSArray.h"
#include "TSString.h"

#include <memory>
#include <unordered_set>
#include <utility>

using namespace Terathon;
using vf::Rng;

static std::string trace;
[[noreturn]] static void bad( const std::string& what ) { vf::fail( what + "; after " + vf::shown( trace, 900 ) ); }

// --- elements --------------------------------------------------------------------

static std::unordered_set<const void*> liveSet;
static uint64_t built = 0, ended = 0;

struct Tracked
{
    const Tracked* self;
    int* owned;
    static void born( const Tracked* t ) { if ( !liveSet.insert( t ).second ) bad( "an element is constructed over a living one" ); built++; }
    void alive( const char* what ) const { if ( self != this || !liveSet.count( this ) ) bad( std::string( what ) + " of something that is not a living element" ); }
    Tracked() : self( this ), owned( new int( 7 ) ) { born( this ); }
    Tracked( int v ) : self( this ), owned( new int( v ) ) { born( this ); }
    Tracked( const Tracked& t ) : self( this ), owned( nullptr ) { t.alive( "copy" ); if ( !t.owned ) bad( "copy of a moved-from element" ); owned = new int( *t.owned ); born( this ); }
    Tracked( Tracked&& t ) noexcept : self( this ), owned( t.owned ) { t.alive( "move" ); if ( !t.owned ) bad( "move of a moved-from element" ); t.owned = nullptr; born( this ); }
    Tracked& operator=( const Tracked& t ) { alive( "assignment" ); t.alive( "copy" ); if ( !t.owned ) bad( "copy of a moved-from element" ); int* n = new int( *t.owned ); delete owned; owned = n; return *this; }
    Tracked& operator=( Tracked&& t ) { alive( "assignment" ); t.alive( "move" ); if ( this != &t ) { delete owned; owned = t.owned; t.owned = nullptr; } return *this; }
    ~Tracked() { if ( self != this || liveSet.erase( this ) != 1 ) bad( "destruction of something that is not a living element" ); self = nullptr; delete owned; ended++; }
    int value() const { alive( "use" ); if ( !owned ) bad( "an element was left moved-from" ); return *owned; }
    bool operator==( const Tracked& t ) const { return value() == t.value(); }
    bool operator!=( const Tracked& t ) const { return value() != t.value(); }
};

// How an element type is made from a number and read back.
template <class T> struct Kind;
template <> struct Kind<Tracked>
{
    static Tracked make( int v ) { return Tracked( v ); }
    static int fresh() { return 7; }
    static bool is( const Tracked& t, int v ) { return t.value() == v; }
    static const char* name() { return "Tracked"; }
};
template <> struct Kind<String<>>
{
    static std::string text( int v ) { return std::string( size_t( v % 90 ), char( 'a' + v % 23 ) ) + std::to_string( v ); }
    static String<> make( int v ) { return String<>( text( v ).c_str() ); }
    static int fresh() { return -1; }
    static bool is( const String<>& s, int v ) { return v == -1 ? s.GetStringLength() == 0 : text( v ) == (const char*)s; }
    static const char* name() { return "String"; }
};
// An element that holds an array with built-in storage.
struct Nest
{
    Array<Tracked, 2> a;
    Nest() {}
    Nest( int v ) { for ( int i = 0; i < v % 5; i++ ) a.AppendArrayElement( Tracked( v + i ) ); }
    bool operator==( const Nest& n ) const { return a == n.a; }
    bool operator!=( const Nest& n ) const { return !( a == n.a ); }
};
template <> struct Kind<Nest>
{
    static Nest make( int v ) { return Nest( v ); }
    static int fresh() { return -1; }
    static bool is( const Nest& n, int v )
    {
        int want = v == -1 ? 0 : v % 5;
        if ( n.a.GetArrayElementCount() != want ) return false;
        for ( int i = 0; i < want; i++ ) if ( n.a[ i ].value() != v + i ) return false;
        return true;
    }
    static const char* name() { return "Nest"; }
};
template <> struct Kind<int64>
{
    static int64 make( int v ) { return int64( v ) * 0x100000001LL; }
    static int fresh() { return -2; } // not initialised
    static bool is( int64 x, int v ) { return v == -2 || x == make( v ); }
    static const char* name() { return "int64"; }
};

template <class T, int N> struct World
{
    typedef Array<T, N> A;
    typedef Kind<T> K;
    std::unique_ptr<A> a;
    std::vector<int> m;
    int next = 0;
    World() { if constexpr ( N == 0 ) a.reset( new A() ); else a.reset( new A ); }

    int value() { return next = ( next * 31 + 11 ) % 997; }

    void note( const char* op, int x = -1 ) { trace += op; if ( x >= 0 ) trace += " " + std::to_string( x ); trace += "; "; }

    static void same( const A& a, const std::vector<int>& m, const char* who )
    {
        if ( a.GetArrayElementCount() != int32( m.size() ) ) bad( std::string( who ) + " has " + std::to_string( a.GetArrayElementCount() ) + " elements, not " + std::to_string( m.size() ) );
        if ( a.Empty() != m.empty() ) bad( "Empty is wrong" );
        if ( a.end() - a.begin() != ptrdiff_t( m.size() ) ) bad( "begin and end disagree with the count" );
        for ( size_t i = 0; i < m.size(); i++ ) if ( !K::is( a[ int32( i ) ], m[ i ] ) ) bad( std::string( who ) + " has the wrong element at " + std::to_string( i ) );
        size_t i = 0;
        for ( const T& t : a ) { if ( &t != &a[ int32( i ) ] ) bad( "iteration is wrong" ); i++; }
        if ( i != m.size() ) bad( "iteration ends early" );
    }
    void check() { same( *a, m, "the array" ); vf::st.evaluations++; }

    void fill( int n ) { for ( int i = 0; i < n; i++ ) { int v = value(); a->AppendArrayElement( K::make( v ) ); m.push_back( v ); } }

    // An element that is found only at the far end.
    void late()
    {
        int n = int( m.size() );
        T t( K::make( 1234 ) );
        a->AppendArrayElement( t );
        m.push_back( 1234 );
        note( "append and find", 1234 );
        if ( a->FindArrayElementIndex( t ) != n ) bad( "FindArrayElementIndex is wrong" );
    }

    static constexpr int kOps = 30;
    void step( int op )
    {
        int n = int( m.size() );
        switch ( op )
        {
            case 0: { int v = value(); note( "append", v ); T* p = a->AppendArrayElement( K::make( v ) ); m.push_back( v ); if ( p != a->end() - 1 ) bad( "AppendArrayElement returns the wrong place" ); break; }
            case 1: { int v = value(); note( "append ref", v ); T t( K::make( v ) ); T* p = a->AppendArrayElement( t ); if ( !K::is( t, v ) ) bad( "an element passed by reference was changed" ); m.push_back( v ); if ( p != a->end() - 1 ) bad( "AppendArrayElement returns the wrong place" ); break; }
            case 2: { note( "append()" ); T* p = a->AppendArrayElement(); if constexpr ( std::is_same_v<T, int64> ) { *p = K::make( 5 ); m.push_back( 5 ); } else m.push_back( K::fresh() ); if ( p != a->end() - 1 ) bad( "AppendArrayElement returns the wrong place" ); break; }
            case 3: insert( 0, false ); break;
            case 4: insert( n / 2, true ); break;
            case 5: insert( n, false ); break;
            case 6: insert( n ? n - 1 : 0, true ); break;
            case 7: insert( n + 2, false ); break;
            case 8: insert( n + 9, true ); break;
            case 9: remove( 0 ); break;
            case 10: remove( n / 2 ); break;
            case 11: remove( n - 1 ); break;
            case 12: remove( n ); break;
            case 13: note( "removelast" ); a->RemoveLastArrayElement(); if ( n ) m.pop_back(); break;
            case 14: count( 0 ); break;
            case 15: count( n + 1 ); break;
            case 16: count( n + 7 ); break;
            case 17: count( n / 2 ); break;
            case 18: count( n ); break;
            case 19: countInit( n + 3 ); break;
            case 20: countInit( n ? n - 1 : 0 ); break;
            case 21: countInit( n + 13 ); break;
            case 22: note( "reserve", n + 6 ); a->ReserveArrayElementCount( n + 6 ); break;
            case 23: note( "reserve", n / 2 ); a->ReserveArrayElementCount( n / 2 ); break;
            case 24: note( "clear" ); a->ClearArray(); m.clear(); break;
            case 25: note( "purge" ); a->PurgeArray(); m.clear(); break;
            case 26:
            {
                note( "copy" );
                std::unique_ptr<A> c( new A( *a ) );
                same( *c, m, "the copy" );
                if ( !( *c == *a ) ) bad( "a copy is not equal" );
                c.swap( a );
                if ( n ) { c->RemoveLastArrayElement(); if ( *c == *a ) bad( "arrays of different lengths are equal" ); }
                c->AppendArrayElement( K::make( 3 ) );
                break;
            }
            case 27:
            {
                note( "move" );
                std::unique_ptr<A> c( new A( std::move( *a ) ) );
                same( *c, m, "the move target" );
                if ( a->GetArrayElementCount() != 0 ) bad( "a moved-from array still has elements" );
                for ( int i = 0; i < 6; i++ ) a->AppendArrayElement( K::make( i ) );
                std::vector<int> six { 0, 1, 2, 3, 4, 5 };
                same( *a, six, "a reused moved-from array" );
                c.swap( a );
                break;
            }
            case 28:
            {
                int v = n ? m[ size_t( n * 2 / 3 ) ] : 1;
                note( "find", v );
                if ( v < 0 && std::is_same_v<T, Nest> ) break;
                T t( v >= 0 ? K::make( v ) : T() );
                int want = -1;
                for ( int i = 0; i < n && want < 0; i++ ) if ( ( *a )[ i ] == t ) want = i;
                if ( a->FindArrayElementIndex( t ) != want ) bad( "FindArrayElementIndex is wrong" );
                if ( a->FindArrayElementIndex( K::make( 998 ) ) != -1 && !std::is_same_v<T, Nest> ) bad( "FindArrayElementIndex finds what is absent" );
                break;
            }
            case 29: if constexpr ( N == 0 ) { note( "Array(count)" ); a.reset( new A( int32( n ) ) ); m.clear(); } else { note( "new" ); a.reset( new A ); m.clear(); } break;
        }
        vf::event( "steps observed" );
    }
    void insert( int i, bool ref )
    {
        int v = value();
        note( ref ? "insert ref" : "insert", i );
        int n = int( m.size() );
        if ( ref ) { T t( K::make( v ) ); a->InsertArrayElement( i, t ); if ( !K::is( t, v ) ) bad( "an element passed by reference was changed" ); }
        else a->InsertArrayElement( i, K::make( v ) );
        if ( i >= n ) { while ( int( m.size() ) < i ) { m.push_back( K::fresh() ); } m.push_back( v ); }
        else m.insert( m.begin() + i, v );
        init( n );
    }
    // Gives a value to new elements that have none.
    void init( int from )
    {
        if constexpr ( std::is_same_v<T, int64> )
            for ( int i = from; i < int( m.size() ); i++ ) if ( m[ size_t( i ) ] == -2 ) { m[ size_t( i ) ] = i; ( *a )[ i ] = K::make( i ); }
        (void)from;
    }
    void remove( int i )
    {
        if ( i < 0 ) return;
        note( "remove", i );
        a->RemoveArrayElement( i );
        if ( i < int( m.size() ) ) m.erase( m.begin() + i );
    }
    void count( int c ) { note( "count", c ); int n = int( m.size() ); a->SetArrayElementCount( c ); m.resize( size_t( c ), K::fresh() ); init( n ); }
    void countInit( int c ) { int v = value(); note( "count init", c ); { T t( K::make( v ) ); a->SetArrayElementCount( c, t ); if ( !K::is( t, v ) ) bad( "an initial value was changed" ); } m.resize( size_t( c ), v ); }
};

template <class T, int N, class F> static void run( F f )
{
    liveSet.clear();
    {
        World<T, N> w;
        trace = std::string( "Array<" ) + Kind<T>::name() + "," + std::to_string( N ) + ">: ";
        f( w );
        if ( std::is_same_v<T, Tracked> && liveSet.size() != w.m.size() ) bad( std::to_string( liveSet.size() ) + " elements live, not " + std::to_string( w.m.size() ) );
        trace += "destroy; ";
    }
    if ( !liveSet.empty() ) bad( std::to_string( liveSet.size() ) + " elements are never destroyed" );
}

template <class F> static void pickType( uint64_t i, F f )
{
    switch ( i % 10 )
    {
        case 0: run<Tracked, 0>( f ); break;
        case 1: run<Tracked, 1>( f ); break;
        case 2: run<Tracked, 4>( f ); break;
        case 3: run<Tracked, 16>( f ); break;
        case 4: run<String<>, 0>( f ); break;
        case 5: run<String<>, 4>( f ); break;
        case 6: run<Nest, 0>( f ); break;
        case 7: run<Nest, 3>( f ); break;
        case 8: run<int64, 0>( f ); break;
        default: run<int64, 5>( f ); break;
    }
}

// Copying the k-th element fails: the copy must not come into being, and nothing of it may stay.
struct Failing : Tracked
{
    static int left;
    Failing( int v ) : Tracked( v ) {}
    Failing( const Failing& f ) : Tracked( f ) { if ( left-- == 0 ) throw 1; }
    Failing( Failing&& f ) noexcept : Tracked( static_cast<Tracked&&>( f ) ) {}
};
int Failing::left = -1;

template <int N> static void failingCopies( int count, bool room )
{
    using A = Array<Failing, N>;
    trace = "copies of an array of " + std::to_string( count ) + " elements, built-in storage " + std::to_string( N ) + ( room ? ", with room" : "" );
    {
        A a;
        if ( room ) a.ReserveArrayElementCount( count + 7 );
        for ( int i = 0; i < count; i++ ) { Failing f( i ); a.AppendArrayElement( static_cast<Failing&&>( f ) ); }
        for ( int k = 0; k <= count; k++ )
        {
            size_t before = liveSet.size();
            uint64_t b = built, e = ended;
            bool thrown = false;
            Failing::left = k;
            try
            {
                A c( a );
                Failing::left = -1;
                if ( c.GetArrayElementCount() != count ) bad( "the copy has another number of elements" );
                for ( int i = 0; i < count; i++ ) if ( c[ i ].value() != i ) bad( "the copy has other elements" );
                c.AppendArrayElement( Failing( 5 ) );
                if ( c[ count ].value() != 5 ) bad( "the copy cannot be used" );
            }
            catch ( int ) { thrown = true; }
            Failing::left = -1;
            if ( thrown != ( k < count ) ) bad( "the failure of element " + std::to_string( k ) + " did not reach the caller" );
            if ( liveSet.size() != before || built - b != ended - e ) bad( "after the failure of element " + std::to_string( k ) + " elements of the copy remain" );
            for ( int i = 0; i < count; i++ ) if ( a[ i ].value() != i ) bad( "the original changed" );
            vf::event( thrown ? "copies failed" : "copies made", 1 );
        }
    }
    vf::nontrivial( vf::hashStr( trace ) );
}

static void all()
{
    constexpr int ops = World<Tracked, 0>::kOps;
    // Every three operations on arrays of every size up to 18.
    vf::stream( "steps", uint64_t( 19 ) * ops * 10, [ & ]( uint64_t i, Rng& ) {
        uint64_t kind = i % 10, first = i / 10 % ops;
        int size = int( i / 10 / ops );
        int third = kind <= 3 ? ops : vf::st.scale > 2 ? ops : 1;
        for ( int b = 0; b < ops; b++ )
            for ( int c = 0; c < third; c++ )
                pickType( kind, [ & ]( auto& w ) {
                    w.fill( size );
                    if ( b == 0 && c == 0 ) w.check();
                    w.step( int( first ) );
                    if ( c == 0 ) w.check();
                    w.step( b );
                    w.check();
                    if ( third > 1 ) { w.step( c ); w.check(); }
                } );
        vf::nontrivial( vf::hashBytes( &i, 8 ) );
    } );
    vf::stream( "failing", 24 * 2 * 5, [ & ]( uint64_t i, Rng& ) {
        int count = int( i / 10 );
        bool room = i & 1;
        switch ( i / 2 % 5 )
        {
            case 0: failingCopies<0>( count, room ); break;
            case 1: failingCopies<1>( count, room ); break;
            case 2: failingCopies<4>( count, room ); break;
            case 3: failingCopies<7>( count, room ); break;
            default: failingCopies<16>( count, room );
        }
    } );
    vf::stream( "history", vf::scaled( 100000 ), [ & ]( uint64_t i, Rng& r ) {
        pickType( i, [ & ]( auto& w ) {
            int steps = r.range( 4, 60 );
            for ( int k = 0; k < steps; k++ )
            {
                int op = int( r.below( ops ) );
                if ( op >= 24 && op != 26 && op != 27 && op != 28 && r.chance( 3, 4 ) ) op = int( r.below( 9 ) );
                if ( op == 14 && r.chance( 3, 4 ) ) op = 19;
                w.step( op );
                w.check();
            }
            vf::nontrivial( vf::hashStr( trace ) );
            if ( i < 3 ) vf::sample( trace );
        } );
    } );
    vf::stream( "large", 20, [ & ]( uint64_t i, Rng& r ) {
        pickType( i, [ & ]( auto& w ) {
            for ( int k = 0; k < 30; k++ ) { w.fill( r.range( 1, 300 ) ); w.step( int( r.below( ops - 1 ) ) ); w.check(); }
        } );
    } );
    vf::stream( "huge", vf::st.scale > 2 ? 120 : 20, [ & ]( uint64_t i, Rng& r ) {
        pickType( i, [ & ]( auto& w ) {
            w.fill( vf::hugeSize( r ) - 2 );
            w.check();
            w.late();
            if ( r.chance( 2, 3 ) ) w.step( 26 ); // a copy without room to spare
            for ( int k = 0; k < 8; k++ ) { w.step( int( r.chance( 1, 2 ) ? r.below( 9 ) : r.below( ops - 1 ) ) ); w.check(); }
        } );
    } );
    vf::event( "elements constructed", built );
    vf::event( "elements destroyed", ended );
    if ( built != ended ) vf::fail( "elements constructed and destroyed differ" );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
