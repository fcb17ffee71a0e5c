// C13: threads on documents of their own and readers of shared ones; ThreadSanitizer watches, results are compared.
#include "ops.h"

#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <sstream>

using namespace lib;
using ops::Obj;
using ops::Ops;
using vf::Rng;
namespace T = Terathon;

std::vector<std::unique_ptr<Ops>>& ops::all()
{
    static std::vector<std::unique_ptr<Ops>> v;
    return v;
}
static std::vector<const Ops*> kinds;

// Results are texts; nothing in here may order the threads among each other (no lock, no atomic, no shared counter).

static void put( std::string& o, const ref::Node& n )
{
    switch ( n.kind )
    {
        case ref::kString: o += "s" + std::to_string( n.text.size() ) + ":" + n.text; break;
        case ref::kNumber: o += "n" + std::to_string( bits( n.number ) ); break;
        case ref::kBool: o += n.flag ? "t" : "f"; break;
        case ref::kNull: o += "0"; break;
        case ref::kArray: o += "["; for ( auto& c : n.items ) put( o, c ); o += "]"; break;
        case ref::kObject: o += "{"; for ( auto& c : n.members ) { o += c.first + "="; put( o, c.second ); } o += "}"; break;
    }
}

struct Shared
{
    std::string text;
    StructuredData d;
    const Ops* type = nullptr;
    std::vector<std::string> names;
};

static std::vector<std::unique_ptr<Shared>> shared;

static void collectNames( const ref::Node& n, std::vector<std::string>& out )
{
    for ( auto& m : n.members ) { out.push_back( m.first ); collectNames( m.second, out ); }
    for ( auto& m : n.items ) collectNames( m, out );
}

static void query( std::string& o, const Value* v, const std::vector<std::string>& names, int depth )
{
    if ( const ObjectValue* x = v->AsJsonObjectValue() )
    {
        for ( auto& q : names )
        {
            const char* c = q.c_str();
            o += char( 'A' + ( x->FindString( c ) != nullptr ) + 2 * ( x->FindNumber( c ) != nullptr ) + 4 * ( x->FindBool( c ) != nullptr ) );
            o += char( 'A' + ( x->FindJsonNull( c ) != nullptr ) + 2 * ( x->FindJsonValueArray( c ) != nullptr ) + 4 * ( x->FindJsonObjectValue( c ) != nullptr ) );
            if ( const Value* e = x->FindMapElement( c ) ) o += str( e->name );
        }
        if ( depth < 6 ) for ( const Value* e : *x ) query( o, e, names, depth + 1 );
    }
    else if ( const Array<Value*>* a = v->GetDataAsPointerTo<Array<Value*>>() )
        for ( const Value* e : *a ) if ( depth < 6 ) query( o, e, names, depth + 1 );
}

static std::string document( Rng& r )
{
    gen::Opt o;
    o.budget = r.range( 5, 40 );
    std::string s = gen::document( r, o );
    // always some escapes, numbers and names
    // at times long ones
    if ( r.chance( 1, 4 ) ) s = "[" + s + ",\"" + std::string( size_t( r.range( 200, 6000 ) ), char( 'a' + r.below( 26 ) ) ) + "\\n\"," + std::string( size_t( r.range( 30, 900 ) ), char( '1' + r.below( 9 ) ) ) + "e-" + std::to_string( r.below( 900 ) ) + "]";
    if ( r.chance( 1, 8 ) ) { int n = r.range( 50, 300 ); s = std::string( size_t( n ), '[' ) + s + std::string( size_t( n ), ']' ); }
    if ( r.chance( 1, 8 ) ) s = "[" + gen::bigObject( r, r.range( 50, 400 ), int( r.below( 4 ) ) ) + "," + s + "]";
    s = "{\"list\":" + s + ",\"e\\u00e9\\ud83d\\ude00\":[" + std::to_string( r.below( 1000 ) ) + "." + std::to_string( r.below( 1000 ) ) + "e-3,\"\\n\\u0041" + std::to_string( r.below( 100 ) ) + "\\/\",true,null],\"k" + std::to_string( r.below( 10 ) ) + "\":-0.5}";
    return s;
}

// What one job does, as a text. Everything in it comes from the job's number, so alone and among others it must be the same.
static std::string job( uint64_t number, const std::string& file )
{
    Rng r( number * 77 + vf::st.seed );
    std::string o;
    switch ( number % 12 )
    {
        case 0: case 1:
        {
            std::string s = document( r );
            if ( r.chance( 1, 2 ) ) s = gen::mutate( r, s );
            StructuredData d;
            ParseResult p = parse( d, s );
            o += statusName( p.status );
            o += " " + std::to_string( p.errorLine ) + " " + std::to_string( p.errorColumn ) + " ";
            o += static_cast<const char*>( ParseResultToString( p ) );
            if ( d.GetRootJsonValue() ) put( o, snapshot( d.GetRootJsonValue() ) );
            break;
        }
        case 2: case 3:
        {
            // written and read again
            std::string s = document( r );
            StructuredData d, e;
            parse( d, s );
            Status w = d.Write( file.c_str(), r.below( 5 ), r.chance( 1, 2 ) ? ' ' : '\t' );
            o += statusName( w );
            if ( w == Status::kOk ) o += vf::readAll( file );
            ParseResult p = e.Parse( file.c_str() );
            o += statusName( p.status );
            if ( e.GetRootJsonValue() ) put( o, snapshot( e.GetRootJsonValue() ) );
            break;
        }
        case 4: case 5:
        {
            const Ops& t = *kinds[ r.below( uint32_t( kinds.size() ) ) ];
            Obj a = t.make( r ), b = t.fresh();
            StructuredData d;
            o += statusName( t.serialize( d, a ) );
            o += statusName( t.validate( d, t.fresh() ) );
            o += statusName( t.deserialize( d, b ) );
            o += t.eq( a, b ) ? "same" : "different";
            if ( d.GetRootJsonValue() ) put( o, snapshot( d.GetRootJsonValue() ) );
            if ( r.chance( 1, 2 ) && d.Write( file.c_str() ) == Status::kOk ) o += vf::readAll( file );
            break;
        }
        case 6:
        {
            // the layers below
            String<> s( "a" ), t;
            for ( int i = 0; i < 20; i++ )
            {
                s += T::Text::IntegerToString( int32( r.next() ) );
                s += T::Text::Integer64ToString( T::int64( r.next() ) );
                t = s;
                if ( r.chance( 1, 3 ) ) s.SetStringLength( int32( r.below( 20 ) ) );
                t.AppendString( s, 5 );
            }
            o += str( s ) + str( t );
            o += static_cast<const char*>( T::Text::FloatToString( float( r.below( 100000 ) ) / 7 ) );
            String<64> f;
            f = t;
            o += static_cast<const char*>( f );
            o += std::to_string( T::Text::CompareTextLessThan( s, t ) ) + std::to_string( T::Text::CompareTextCaseless( s, t ) ) + std::to_string( T::Text::CompareNumberedTextLessThan( s, t ) );
            Array<String<>> a;
            for ( int i = 0; i < 30; i++ ) { a.AppendArrayElement( t ); if ( r.chance( 1, 4 ) ) a.RemoveArrayElement( int32( r.below( uint32_t( a.GetArrayElementCount() ) ) ) ); }
            o += std::to_string( a.GetArrayElementCount() );
            o += GetVersion();
            for ( int i = 0; i < 29; i++ ) o += StatusToString( Status( i ) );
            break;
        }
        case 10:
        {
            // what fails
            StructuredData d;
            ParseResult p = d.Parse( ( file + ".absent" ).c_str() );
            o += static_cast<const char*>( ParseResultToString( p ) );
            o += statusName( d.Write( ( file + ".absent/x" ).c_str() ) );
            parse( d, document( r ) );
            o += statusName( d.Write( ( file + ".absent/x" ).c_str() ) );
            o += statusName( d.Write( "/dev/full", 2 ) );
            vf::writeAll( file, std::string( 65536, ' ' ) );
            p = d.Parse( file.c_str() );
            o += statusName( p.status );
            std::vector<std::string> v { "a", std::string( "a\0b", 3 ) };
            o += statusName( d.SerializeFrom( v ) );
            std::map<std::string, double> m;
            o += statusName( d.DeserializeTo( m ) );
            break;
        }
        case 11:
        {
            // a document made and changed through its tree
            StructuredData d, e;
            ObjectMap<Null> none;
            d.SerializeFrom( none );
            Value* root = d.GetRootJsonValue();
            for ( int i = r.range( 1, 30 ); i > 0; i-- )
            {
                const std::string k = "k" + std::to_string( r.below( 12 ) );
                const Ops& t = *kinds[ r.below( uint32_t( kinds.size() ) ) ];
                if ( r.chance( 1, 2 ) ) { o += statusName( t.serializeNamed( root, k.c_str(), t.make( r ) ) ); continue; }
                Obj b = t.fresh();
                o += statusName( t.validateNamed( root, k.c_str(), b ) );
                o += statusName( t.deserializeNamed( root, k.c_str(), b ) );
                parse( e, "[" + std::to_string( i ) + "]" );
                Array<Value*>& a = *e.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
                Value* v = a[ 0 ];
                a.PurgeArray();
                v->name = k.c_str();
                delete root->AsJsonObjectValue()->InsertReplaceAccountedMapElement( v );
            }
            put( o, snapshot( root ) );
            o += statusName( d.Write( file.c_str(), 3 ) );
            o += vf::readAll( file );
            break;
        }
        case 7: case 8: case 9:
        {
            // a shared document, only read
            Shared& h = *shared[ r.below( uint32_t( shared.size() ) ) ];
            const StructuredData& c = h.d;
            if ( c.GetRootJsonValue() )
            {
                if ( r.chance( 1, 2 ) ) put( o, snapshot( c.GetRootJsonValue() ) );
                if ( r.chance( 1, 2 ) ) query( o, c.GetRootJsonValue(), h.names, 0 );
                std::string e;
                o += std::to_string( kindOf( c.GetRootJsonValue(), e ) ) + e;
            }
            const Ops& t = h.type && r.chance( 2, 3 ) ? *h.type : *kinds[ r.below( uint32_t( kinds.size() ) ) ];
            Obj b = t.fresh();
            o += statusName( t.validate( c, b ) );
            o += statusName( t.deserialize( h.d, b ) );
            std::string text;
            put( text, t.node( b ) );
            o += text;
            if ( r.chance( 1, 4 ) )
            {
                o += statusName( h.d.Write( file.c_str(), r.below( 4 ) ) );
                o += vf::readAll( file );
            }
            break;
        }
    }
    return o;
}

struct Thread
{
    pthread_t t;
    int       index = 0, threads = 0;
    uint64_t  first = 0, jobs = 0, perturb = 0, switches = 0;
    const std::vector<std::string>* want = nullptr;
    std::string file;
    bool      failed = false;
    uint64_t  failedJob = 0;
    std::string got;
    static std::atomic<int> ready;
    static void* main( void* p )
    {
        Thread& t = *static_cast<Thread*>( p );
        ready.fetch_add( 1, std::memory_order_relaxed );
        while ( ready.load( std::memory_order_relaxed ) < t.threads ) sched_yield();
        Rng r( t.perturb );
        for ( uint64_t k = 0; k < t.jobs; k++ )
        {
            // every thread does all jobs, each in another order, some at the same moment
            uint64_t j = r.chance( 1, 3 ) ? k : ( k * 7 + uint64_t( t.index ) * 13 ) % t.jobs;
            if ( r.chance( 1, 5 ) ) { sched_yield(); t.switches++; }
            std::string s = job( t.first + j, t.file );
            if ( s != ( *t.want )[ j ] ) { t.failed = true; t.failedJob = t.first + j; t.got = s; return nullptr; }
        }
        return nullptr;
    }
};
std::atomic<int> Thread::ready { 0 };

static void together( uint64_t i, Rng& r )
{
    // new shared documents
    shared.clear();
    for ( int k = 0; k < 4; k++ )
    {
        auto h = std::make_unique<Shared>();
        if ( k < 2 ) { h->text = document( r ); parse( h->d, h->text ); }
        else { h->type = kinds[ r.below( uint32_t( kinds.size() ) ) ]; h->type->serialize( h->d, h->type->make( r ) ); }
        if ( h->d.GetRootJsonValue() ) collectNames( snapshot( h->d.GetRootJsonValue() ), h->names );
        h->names.push_back( "absent" );
        if ( h->names.size() > 8 ) h->names.resize( 8 );
        shared.push_back( std::move( h ) );
    }
    const uint64_t jobs = 48, first = ( i + 1 ) * 1000;
    std::vector<std::string> want;
    std::string base = vf::st.dir + "/t." + std::to_string( vf::st.shard ) + ".";
    int n = r.range( 2, 8 );
    std::vector<Thread> t( static_cast<size_t>( n ) );
    for ( uint64_t j = 0; j < jobs; j++ ) want.push_back( job( first + j, base + "m" ) );
    Thread::ready.store( 0 );
    for ( int k = 0; k < n; k++ )
    {
        t[ size_t( k ) ].index = k;
        t[ size_t( k ) ].threads = n;
        t[ size_t( k ) ].first = first;
        t[ size_t( k ) ].jobs = jobs;
        t[ size_t( k ) ].perturb = r.next();
        t[ size_t( k ) ].want = &want;
        t[ size_t( k ) ].file = base + std::to_string( k );
        if ( pthread_create( &t[ size_t( k ) ].t, nullptr, Thread::main, &t[ size_t( k ) ] ) != 0 ) vf::harnessError( "pthread_create" );
    }
    for ( auto& x : t ) pthread_join( x.t, nullptr );
    for ( auto& x : t )
    {
        vf::event( "yields inserted", x.switches );
        if ( x.failed ) vf::fail( "job " + std::to_string( x.failedJob % 12 ) + " (number " + std::to_string( x.failedJob ) + ") gives another result among " + std::to_string( n ) + " threads: " + vf::shown( x.got, 300 ) + " instead of " + vf::shown( want[ size_t( x.failedJob - first ) ], 300 ) );
    }
    for ( size_t j = 0; j < want.size(); j++ ) { vf::event( "jobs of kind " + std::to_string( ( first + j ) % 12 ), uint64_t( n ) ); vf::nontrivial( vf::hashStr( want[ j ], j % 12 ) ); }
    vf::sample( want[ 0 ] );
    vf::st.evaluations += jobs * uint64_t( n );
    vf::event( "threads", uint64_t( n ) );
    vf::event( "rounds with " + std::to_string( n ) + " threads" );
}

// The very first uses of the library in a process, made by all threads at once.
static void firstUses( Rng& r )
{
    auto h = std::make_unique<Shared>();
    shared.clear();
    h->d.SerializeFrom( 1.0 );
    h->names = { "a" };
    shared.push_back( std::move( h ) );
    const uint64_t jobs = 48, first = 500;
    static std::vector<std::string> results[ 6 ];
    struct Arg { int k; std::string file; uint64_t jobs, first; };
    std::vector<Arg> a( 6 );
    std::vector<pthread_t> p( 6 );
    for ( int k = 0; k < 6; k++ )
    {
        a[ size_t( k ) ] = { k, vf::st.dir + "/f." + std::to_string( vf::st.shard ) + "." + std::to_string( k ), jobs, first };
        pthread_create( &p[ size_t( k ) ], nullptr, []( void* q ) -> void* {
            Arg& x = *static_cast<Arg*>( q );
            for ( uint64_t j = 0; j < x.jobs; j++ ) results[ x.k ].push_back( job( x.first + j, x.file ) );
            return nullptr;
        }, &a[ size_t( k ) ] );
    }
    for ( auto& x : p ) pthread_join( x, nullptr );
    for ( int k = 0; k < 6; k++ )
        for ( uint64_t j = 0; j < jobs; j++ )
            if ( results[ k ][ j ] != job( first + j, a[ 0 ].file ) ) vf::fail( "a first use among threads gives another result: job " + std::to_string( ( first + j ) % 12 ) );
    vf::st.evaluations += 6 * jobs;
    vf::event( "first uses by threads", 6 * jobs );
    (void)r;
}

static void all()
{
    for ( auto& o : ops::all() ) kinds.push_back( o.get() );
    std::sort( kinds.begin(), kinds.end(), []( const Ops* a, const Ops* b ) { return a->name < b->name; } );
    vf::stream( "first", uint64_t( vf::st.nshards ), []( uint64_t, Rng& r ) { firstUses( r ); }, 400 );
    vf::stream( "rounds", vf::scaled( 1000 ), together, 400 );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
