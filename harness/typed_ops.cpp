// Typed operations on arbitrary documents, for C01.
#include "types.h"

using namespace lib;

template <class T> static void tryType( StructuredData& d, uint64_t& h )
{
    T t {};
    h = h * 7 + uint64_t( Validate( d, t ) );
    h = h * 7 + uint64_t( d.DeserializeTo( t ) );
    StructuredData d2;
    h = h * 7 + uint64_t( d2.SerializeFrom( t ) );
}

void tryTypes( StructuredData& d, uint64_t pick, uint64_t& h )
{
    switch ( pick % 8 )
    {
        case 0: tryType<types::Plain>( d, h ); break;
        case 1: tryType<types::Deep>( d, h ); break;
        case 2: tryType<Array<String<>>>( d, h ); tryType<Array<double>>( d, h ); break;
        case 3: tryType<ObjectMap<double>>( d, h ); tryType<ObjectMap<String<>>>( d, h ); break;
        case 4: tryType<std::vector<std::string>>( d, h ); tryType<std::map<std::string, std::string>>( d, h ); break;
        case 5: tryType<types::MemberStyle>( d, h ); break;
        case 6: tryType<String<>>( d, h ); tryType<double>( d, h ); tryType<bool>( d, h ); tryType<Null>( d, h ); tryType<std::string>( d, h ); break;
        case 7: tryType<Array<types::Plain>>( d, h ); tryType<std::vector<types::MemberStyle>>( d, h ); break;
    }
}
