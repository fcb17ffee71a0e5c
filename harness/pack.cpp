// C20: the texts all configurations are fed with, written to pack.<shard>.
#include "ops.h"
#include "texts.h"
#include "render.h"

using ops::Obj;
using ops::Ops;
using vf::Rng;

std::vector<std::unique_ptr<Ops>>& ops::all()
{
    static std::vector<std::unique_ptr<Ops>> v;
    return v;
}

static FILE* f;
static void put( const std::string& s, Rng& )
{
    if ( s.size() > 20000 ) return;
    uint32_t n = uint32_t( s.size() );
    fwrite( &n, 4, 1, f );
    fwrite( s.data(), 1, s.size(), f );
    vf::st.evaluations++;
    vf::nontrivial( vf::hashStr( s ) );
}

static void all()
{
    f = fopen( ( vf::st.dir + "/pack." + std::to_string( vf::st.shard ) ).c_str(), "wb" );
    if ( !f ) vf::harnessError( "pack" );
    std::vector<const Ops*> kinds;
    for ( auto& o : ops::all() ) kinds.push_back( o.get() );
    std::sort( kinds.begin(), kinds.end(), []( const Ops* a, const Ops* b ) { return a->name < b->name; } );
    texts::Sizes z;
    z.tokens = 4;
    z.digits = 4;
    z.chars = 3;
    z.valid = 20000;
    z.mutants = 40000;
    z.pairs3 = false;
    texts::all( z, put );
    vf::stream( "typed", vf::scaled( double( kinds.size() ) * 200 ), [ & ]( uint64_t i, Rng& r ) {
        const Ops& o = *kinds[ i % kinds.size() ];
        std::string s = render( o.node( o.make( r ) ), &r );
        vf::sample( s );
        put( s, r );
        if ( i % 4 == 0 ) put( gen::mutate( r, s ), r );
    } );
    fclose( f );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
