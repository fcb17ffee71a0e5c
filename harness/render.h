#pragma once

#include "gen.h"
#include "lib.h"

using lib::dbl;

// A text that denotes the node.
static void render( const ref::Node& n, std::string& o, vf::Rng* r = nullptr )
{
    gen::Opt opt;
    auto quote = [ & ]( const std::string& s ) {
        o += '"';
        for ( unsigned char c : s )
        {
            char b[ 8 ];
            if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
            else if ( c < 32 ) { snprintf( b, 8, "\\u%04x", c ); o += b; }
            else o += char( c );
        }
        o += '"';
    };
    auto space = [ & ]() { if ( r ) gen::ws( *r, o, opt ); };
    space();
    switch ( n.kind )
    {
        case ref::kString: quote( n.text ); break;
        case ref::kNumber: o += n.number - n.number == 0 ? dbl( n.number ) : n.number > 0 ? "1e999" : "-1e999"; break;
        case ref::kBool: o += n.flag ? "true" : "false"; break;
        case ref::kNull: o += "null"; break;
        case ref::kArray:
            o += '[';
            for ( size_t i = 0; i < n.items.size(); i++ ) { if ( i ) o += ','; render( n.items[ i ], o, r ); }
            o += ']';
            break;
        case ref::kObject:
            o += '{';
            for ( size_t i = 0; i < n.members.size(); i++ )
            {
                if ( i ) o += ',';
                space();
                quote( n.members[ i ].first );
                o += ':';
                render( n.members[ i ].second, o, r );
            }
            o += '}';
            break;
    }
    space();
}

static std::string render( const ref::Node& n, vf::Rng* r = nullptr ) { std::string o; render( n, o, r ); return o; }

