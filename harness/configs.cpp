// C20: what the library does with each packed text, as one hash per text; the runner compares the configurations.
// Nothing in here may depend on the compiler: no unspecified order of evaluation, no generator.
#include "types.h"

#include <memory>

using namespace lib;
namespace T = Terathon;

static std::string out; // the transcript of the current text
static std::string path;

static void line( const char* what, const std::string& s )
{
    out += what;
    out += '=';
    out += s;
    out += '\n';
}
static void line( const char* what, long long v ) { line( what, std::to_string( v ) ); }

static void tree( std::string& o, const Value* v )
{
    std::string name = str( v->name );
    o += std::to_string( v->name.GetStringLength() );
    o += ':';
    o += name;
    if ( auto* s = v->GetDataAsPointerTo<String<>>() ) { o += " s"; o += std::to_string( s->GetStringLength() ); o += ':'; o += str( *s ); }
    else if ( auto* d = v->GetDataAsPointerTo<double>() ) { o += " n"; o += std::to_string( bits( *d ) ); }
    else if ( auto* b = v->GetDataAsPointerTo<bool>() ) o += *b ? " t" : " f";
    else if ( v->GetDataAsPointerTo<Null>() ) o += " 0";
    else if ( auto* a = v->GetDataAsPointerTo<Array<Value*>>() )
    {
        o += " [";
        for ( const Value* e : *a ) { tree( o, e ); o += ','; }
        o += ']';
    }
    else if ( auto* x = v->AsJsonObjectValue() )
    {
        o += " {";
        for ( const Value* e : *x )
        {
            tree( o, e );
            const char* q = e->name;
            int k = 0;
            if ( x->FindString( q ) ) k += 1;
            if ( x->FindNumber( q ) ) k += 2;
            if ( x->FindBool( q ) ) k += 4;
            if ( x->FindJsonNull( q ) ) k += 8;
            if ( x->FindJsonValueArray( q ) ) k += 16;
            if ( x->FindJsonObjectValue( q ) ) k += 32;
            o += std::to_string( k );
            o += ',';
        }
        o += '}';
    }
    else o += " ?";
}

static void whole( const char* what, const StructuredData& d )
{
    std::string s;
    if ( d.GetRootJsonValue() ) tree( s, d.GetRootJsonValue() );
    else s = "(none)";
    line( what, s );
}

static void result( const char* what, const ParseResult& p )
{
    std::string s = statusName( p.status );
    s += " ";
    s += std::to_string( p.errorLine );
    s += " ";
    s += std::to_string( p.errorColumn );
    s += " ";
    String<256> m = ParseResultToString( p );
    s += static_cast<const char*>( m );
    s += " ";
    s += StatusToString( p.status );
    line( what, s );
}

template <class X> static void typed( const char* name, StructuredData& d )
{
    line( "type", name );
    X x {};
    line( "validate", statusName( Validate( d, x ) ) );
    Status s = d.DeserializeTo( x );
    line( "deserialize", statusName( s ) );
    StructuredData e;
    Status t = e.SerializeFrom( x );
    line( "serialize", statusName( t ) );
    whole( "object", e );
    if ( s == Status::kOk )
    {
        Status w = e.Write( path.c_str(), 1, ' ' );
        line( "write", statusName( w ) );
        line( "bytes", vf::readAll( path ) );
    }
}

static void typedPart( StructuredData& d, uint64_t k )
{
    switch ( k % 12 )
    {
        case 0: typed<types::Plain>( "Plain", d ); break;
        case 1: typed<types::MemberStyle>( "MemberStyle", d ); break;
        case 2: typed<types::Choice>( "Choice", d ); break;
        case 3: typed<types::Light>( "Light", d ); break;
        case 4: typed<types::Deep>( "Deep", d ); break;
        case 5: typed<types::Joined>( "Joined", d ); break;
        case 6: typed<Array<String<>>>( "Array<String>", d ); break;
        case 7: typed<ObjectMap<double>>( "ObjectMap<double>", d ); break;
        case 8: typed<ObjectMap<Array<double>>>( "ObjectMap<Array<double>>", d ); break;
        case 9: typed<Array<types::Plain>>( "Array<Plain>", d ); break;
        case 10: typed<ObjectMap<types::Light>>( "ObjectMap<Light>", d ); break;
        default: typed<String<>>( "String", d ); typed<double>( "double", d ); typed<bool>( "bool", d ); typed<Null>( "Null", d ); break;
    }
}

// By the kind of document all types that could fit are tried.
static void fitting( StructuredData& d )
{
    if ( !d.GetRootJsonValue() ) return;
    if ( const ObjectValue* o = d.GetRootJsonValue()->AsJsonObjectValue() )
    {
        if ( o->FindMapElement( "text" ) ) { typed<types::Plain>( "Plain", d ); typed<types::Joined>( "Joined", d ); }
        if ( o->FindMapElement( "title" ) ) typed<types::MemberStyle>( "MemberStyle", d );
        if ( o->FindMapElement( "must" ) ) typed<types::Light>( "Light", d );
        if ( o->FindMapElement( "first" ) ) typed<types::Choice>( "Choice", d );
        if ( o->FindMapElement( "grid" ) ) typed<types::Deep>( "Deep", d );
    }
}

#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
static void stdPart( StructuredData& d, uint64_t k )
{
    switch ( k % 6 )
    {
        case 0: typed<types::Std>( "Std", d ); break;
        case 1: typed<std::vector<std::string>>( "vector<string>", d ); break;
        case 2: typed<std::map<std::string, double>>( "map<string,double>", d ); break;
        case 3: typed<std::vector<std::vector<double>>>( "vector<vector<double>>", d ); break;
        case 4: typed<std::map<std::string, std::vector<bool>>>( "map<string,vector<bool>>", d ); break;
        default: typed<std::string>( "string", d ); break;
    }
    if ( d.GetRootJsonValue() )
        if ( const ObjectValue* o = d.GetRootJsonValue()->AsJsonObjectValue() )
            if ( o->FindMapElement( "mixedMap" ) ) typed<types::Std>( "Std", d );
}
#endif

static void texts( const std::string& s, uint64_t k )
{
    String<> a( s.c_str() ), b;
    a += T::Text::IntegerToString( int32( k * 2654435761u ) );
    b = a;
    b += T::Text::Integer64ToString( T::int64( k * 0x9E3779B97F4A7C15ull ) );
    line( "string", str( a ) );
    line( "string", str( b ) );
    line( "length", b.GetStringLength() );
    line( "less", T::Text::CompareTextLessThan( s.c_str(), a ) );
    line( "caseless", T::Text::CompareTextCaseless( s.c_str(), a ) );
    line( "numbered", T::Text::CompareNumberedTextLessThan( s.c_str(), b ) );
    T::uint32 hash = T::Text::Hash( s.c_str() );
    line( "hash", hash );
    String<40> f( s.c_str() );
    f += a;
    line( "fixed", static_cast<const char*>( f ) );
    b.SetStringLength( b.GetStringLength() / 2 );
    line( "cut", str( b ) );
}

static StructuredData* kept;

static void one( const std::string& s, uint64_t k, bool std_ )
{
    out.clear();
    if ( !std_ )
    {
        StructuredData d;
        ParseResult p = parse( d, s );
        result( "parse", p );
        whole( "tree", d );
        typedPart( d, k );
        fitting( d );
        if ( k % 2 == 0 )
        {
            Status w = d.Write( path.c_str(), unsigned( k / 2 % 5 ), k % 4 ? ' ' : '\t' );
            line( "write", statusName( w ) );
            if ( w == Status::kOk ) line( "bytes", vf::readAll( path ) );
            StructuredData e;
            ParseResult q = e.Parse( path.c_str() );
            result( "file", q );
            whole( "file tree", e );
        }
        // a document with a past
        ParseResult q = parse( *kept, s );
        result( "kept", q );
        whole( "kept tree", *kept );
        if ( k % 3 == 0 ) texts( s, k );
        if ( k == 0 ) line( "version", GetVersion() );
    }
    else
    {
#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
        StructuredData d;
        parse( d, s );
        stdPart( d, k );
#endif
    }
}

static void all()
{
    path = vf::st.dir + "/out." + std::to_string( vf::st.shard );
    kept = new StructuredData;
    FILE* f = fopen( ( vf::st.dir + "/pack." + std::to_string( vf::st.shard ) ).c_str(), "rb" );
    FILE* o = fopen( ( vf::st.dir + "/log." + std::to_string( vf::st.shard ) ).c_str(), "w" );
    if ( !f || !o ) vf::harnessError( "pack" );
    long long show = vf::st.mode.empty() ? -1 : atoll( vf::st.mode.c_str() );
    uint32_t n;
    std::string s;
    for ( uint64_t k = 0; fread( &n, 4, 1, f ) == 1; k++ )
    {
        s.resize( n );
        if ( n && fread( &s[ 0 ], 1, n, f ) != n ) vf::harnessError( "bad pack" );
        if ( k % 64 == 0 ) vf::armWatchdog( 120 );
        vf::caseName = "text " + std::to_string( k );
        vf::setCurrent( vf::caseName );
        one( s, k, false );
        uint64_t h = vf::hashStr( out ), h2 = 0;
        if ( show == (long long)k ) { std::string sh = vf::shown( s, 2000 ); line( "TEXT", sh ); fputs( vf::shown( out, 20000 ).c_str(), stderr ); }
#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
        if ( k % 4 == 0 )
        {
            one( s, k / 4, true );
            h2 = vf::hashStr( out );
            if ( show == (long long)k ) fputs( vf::shown( out, 20000 ).c_str(), stderr );
            vf::event( "std transcripts" );
        }
#endif
        fprintf( o, "%llu %016llx %016llx\n", (unsigned long long)k, (unsigned long long)h, (unsigned long long)h2 );
        vf::st.evaluations++;
        vf::event( "transcripts" );
    }
    delete kept;
    fclose( f );
    fclose( o );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
