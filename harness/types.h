// User types of every supported shape, and a model of each: how to make a value, when two are equal,
// which document a value stands for and which statuses a document may produce.
#pragma once

#include "C4Json.h"
#include "gen.h"
#include "lib.h"

#include <set>

namespace types
{
    using namespace C4::Json;
    using Terathon::Array;
    using Terathon::String;

    // free functions by macro
    struct Plain
    {
        String<> s;
        double   d = 0;
        bool     b = false;
        Null     n;
        template <class O, class V> static void fields( O& o, V&& v ) { v( "text", false, o.s ); v( "number", false, o.d ); v( "flag", false, o.b ); v( "nothing", false, o.n ); }
    };
#define VF_PLAIN_PROTO "text", object.s, "number", object.d, "flag", object.b, "nothing", object.n
    DEFINE_JSON4C4_FUNCTIONS( Plain, VF_PLAIN_PROTO )

    // member functions by macro
    struct MemberStyle
    {
        String<>      title;
        Array<double> numbers;
        Plain         inner;
        template <class O, class V> static void fields( O& o, V&& v ) { v( "title", false, o.title ); v( "a name longer than any inline buffer", false, o.numbers ); v( "inner", false, o.inner ); }
#define VF_MEMBER_PROTO "title", title, "a name longer than any inline buffer", numbers, "inner", inner
        DEFINE_JSON4C4_MEMBER_FUNCTIONS( VF_MEMBER_PROTO )
    };

    // optional names, before, between and behind required ones; optional values that have required names themselves
    struct Choice
    {
        double           first = 1;
        String<>         maybe;
        bool             second = false;
        Plain            part;
        MemberStyle      member;
        Array<Plain>     list;
        ObjectMap<double> map;
        double           last = 2;
        Null             nothing;
        template <class O, class V> static void fields( O& o, V&& v )
        {
            v( "maybe", true, o.maybe );
            v( "first", false, o.first );
            v( "part", true, o.part );
            v( "member", true, o.member );
            v( "second", false, o.second );
            v( "list", true, o.list );
            v( "map", true, o.map );
            v( "nothing", true, o.nothing );
            v( "last", true, o.last );
        }
    };
#define VF_CHOICE_PROTO optional, "maybe", object.maybe, "first", object.first, optional, "part", object.part, optional, "member", object.member, "second", object.second, optional, "list", object.list, optional, "map", object.map, optional, "nothing", object.nothing, optional, "last", object.last
    DEFINE_JSON4C4_FUNCTIONS( Choice, VF_CHOICE_PROTO )

    // optional names in a type that can be an element
    struct Light
    {
        double        must = 0;
        String<>      maybe;
        Array<double> list;
        Plain         part;
        template <class O, class V> static void fields( O& o, V&& v ) { v( "maybe", true, o.maybe ); v( "must", false, o.must ); v( "list", true, o.list ); v( "part", true, o.part ); }
    };
#define VF_LIGHT_PROTO optional, "maybe", object.maybe, "must", object.must, optional, "list", object.list, optional, "part", object.part
    DEFINE_JSON4C4_FUNCTIONS( Light, VF_LIGHT_PROTO )

    // containers in containers
    struct Deep
    {
        Array<Array<double>>          grid;
        Array<String<>>               words;
        Array<bool>                   bits;
        Array<Null>                   nulls;
        Array<Plain>                  plains;
        Array<MemberStyle>            members;
        ObjectMap<double>             numbers;
        ObjectMap<String<>>           texts;
        ObjectMap<Array<String<>>>    lists;
        ObjectMap<ObjectMap<bool>>    nested;
        ObjectMap<Plain>              named;
        ObjectMap<MemberStyle>        namedMembers;
        ObjectMap<Null>               nullMap;
        template <class O, class V> static void fields( O& o, V&& v )
        {
            v( "grid", false, o.grid );
            v( "words", false, o.words );
            v( "bits", false, o.bits );
            v( "nulls", false, o.nulls );
            v( "plains", false, o.plains );
            v( "members", false, o.members );
            v( "numbers", false, o.numbers );
            v( "texts", false, o.texts );
            v( "lists", false, o.lists );
            v( "nested", false, o.nested );
            v( "named", false, o.named );
            v( "namedMembers", false, o.namedMembers );
            v( "nullMap", false, o.nullMap );
        }
    };
#define VF_DEEP_PROTO "grid", object.grid, "words", object.words, "bits", object.bits, "nulls", object.nulls, "plains", object.plains, "members", object.members, "numbers", object.numbers, "texts", object.texts, "lists", object.lists, "nested", object.nested, "named", object.named, "namedMembers", object.namedMembers, "nullMap", object.nullMap
    DEFINE_JSON4C4_FUNCTIONS( Deep, VF_DEEP_PROTO )

    // a part without a name of its own: its names join those of the whole
    struct Joined
    {
        Plain  base;
        double x = 0;
        template <class O, class V> static void fields( O& o, V&& v ) { Plain::fields( o.base, v ); v( "x", false, o.x ); }
    };
#define VF_JOINED_PROTO object.base, "x", object.x
    DEFINE_JSON4C4_FUNCTIONS( Joined, VF_JOINED_PROTO )

    // functions written by hand: a pair as an array of two
    struct Pair
    {
        double   a = 0;
        String<> b;
    };
    inline Status Serialize( Value* v, const Pair& p ) noexcept
    {
        ObjectValue* o = v->AsJsonObjectValue();
        if ( !o ) return Status::kInvalidValueType;
        Status s = C4::Json::Serialize( v, "first", p.a );
        return s == Status::kOk ? C4::Json::Serialize( v, "second", p.b ) : s;
    }
    inline Status Deserialize( const Value* v, Pair& p ) noexcept
    {
        Status s = C4::Json::Deserialize( v, "first", p.a );
        return s == Status::kOk ? C4::Json::Deserialize( v, "second", p.b ) : s;
    }
    inline Status Validate( const Value* v, const Pair& p ) noexcept
    {
        Status s = C4::Json::Validate( v, "first", p.a );
        return s == Status::kOk ? C4::Json::Validate( v, "second", p.b ) : s;
    }

    // functions that allocate for themselves, and may throw, before and after they use the library
    struct Scratch
    {
        void* p = ::operator new( 48 );
        Scratch() { asm volatile( "" : : "r"( p ) : "memory" ); }
        ~Scratch() { ::operator delete( p ); }
        Scratch( const Scratch& ) = delete;
    };
    struct Fragile
    {
        double   a = 0;
        String<> b;
        template <class O, class V> static void fields( O& o, V&& v ) { v( "a", false, o.a ); v( "b", false, o.b ); }
        Status Deserialize( const Value* v )
        {
            Scratch x;
            Status  s = C4::Json::DeserializeProto( v, "a", a, "b", b );
            Scratch y;
            return s;
        }
        Status Validate( const Value* v ) const
        {
            Scratch x;
            Status  s = C4::Json::ValidateProto( v, "a", a, "b", b );
            Scratch y;
            return s;
        }
        Status Serialize( Value* v ) const
        {
            Scratch x;
            Status  s = C4::Json::SerializeProto( v, "a", a, "b", b );
            Scratch y;
            return s;
        }
    };
    struct FragileFree
    {
        Fragile       inner;
        Array<double> list;
        template <class O, class V> static void fields( O& o, V&& v ) { v( "inner", true, o.inner ); v( "list", false, o.list ); }
    };
    inline Status Deserialize( const Value* v, FragileFree& o )
    {
        Scratch x;
        Status  s = C4::Json::DeserializeProto( v, optional, "inner", o.inner, "list", o.list );
        Scratch y;
        return s;
    }
    inline Status Validate( const Value* v, const FragileFree& o )
    {
        Scratch x;
        Status  s = C4::Json::ValidateProto( v, optional, "inner", o.inner, "list", o.list );
        Scratch y;
        return s;
    }
    inline Status Serialize( Value* v, const FragileFree& o )
    {
        Scratch x;
        Status  s = C4::Json::SerializeProto( v, optional, "inner", o.inner, "list", o.list );
        Scratch y;
        return s;
    }

    // can be copied, but not moved: its elements are allocated again when it becomes an element
    struct Copied
    {
        Array<String<>> list;
        String<>        text;
        Copied()                = default;
        Copied( const Copied& ) = default;
        Copied& operator=( const Copied& ) = delete;
        ~Copied() {}
        template <class O, class V> static void fields( O& o, V&& v ) { v( "list", false, o.list ); v( "text", true, o.text ); }
    };
#define VF_COPIED_PROTO "list", object.list, optional, "text", object.text
    DEFINE_JSON4C4_FUNCTIONS( Copied, VF_COPIED_PROTO )

#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
    struct Std
    {
        std::string                                     text;
        std::vector<double>                             numbers;
        std::vector<std::string>                        words;
        std::vector<bool>                               bits;
        std::vector<Null>                               nulls;
        std::vector<std::vector<std::string>>           grid;
        std::vector<Plain>                              plains;
        std::vector<MemberStyle>                        members;
        std::vector<std::map<std::string, double>>      maps;
        std::map<std::string, double>                   numberMap;
        std::map<std::string, std::string>              textMap;
        std::map<std::string, bool>                     bitMap;
        std::map<std::string, std::vector<double>>      listMap;
        std::map<std::string, Plain>                    plainMap;
        std::map<std::string, MemberStyle>              memberMap;
        std::map<std::string, std::map<std::string, Null>> nested;
        Array<std::string>                              mixed;
        ObjectMap<std::vector<bool>>                    mixedMap;
        template <class O, class V> static void fields( O& o, V&& v )
        {
            v( "text", false, o.text );
            v( "numbers", false, o.numbers );
            v( "words", false, o.words );
            v( "bits", false, o.bits );
            v( "nulls", false, o.nulls );
            v( "grid", false, o.grid );
            v( "plains", false, o.plains );
            v( "members", false, o.members );
            v( "maps", false, o.maps );
            v( "numberMap", false, o.numberMap );
            v( "textMap", false, o.textMap );
            v( "bitMap", false, o.bitMap );
            v( "listMap", false, o.listMap );
            v( "plainMap", false, o.plainMap );
            v( "memberMap", false, o.memberMap );
            v( "nested", false, o.nested );
            v( "mixed", false, o.mixed );
            v( "mixedMap", false, o.mixedMap );
        }
    };
#define VF_STD_PROTO "text", object.text, "numbers", object.numbers, "words", object.words, "bits", object.bits, "nulls", object.nulls, "grid", object.grid, "plains", object.plains, "members", object.members, "maps", object.maps, "numberMap", object.numberMap, "textMap", object.textMap, "bitMap", object.bitMap, "listMap", object.listMap, "plainMap", object.plainMap, "memberMap", object.memberMap, "nested", object.nested, "mixed", object.mixed, "mixedMap", object.mixedMap
    DEFINE_JSON4C4_FUNCTIONS( Std, VF_STD_PROTO )
#endif

    // ---- models -------------------------------------------------------------

    using vf::Rng;

    inline std::string anyText( Rng& r )
    {
        std::string t;
        int n = r.chance( 1, 4 ) ? gen::boundaryLength( r ) : r.range( 0, 10 );
        bool plain = r.chance( 1, 2 );
        for ( int i = 0; i < n; i++ )
        {
            if ( plain ) t += char( 'a' + ( i % 26 ) );
            else ref::appendUtf8( t, r.chance( 1, 3 ) ? uint32_t( r.range( 1, 0x7f ) ) : gen::codePoint( r ) );
        }
        return t;
    }

    inline double anyNumber( Rng& r )
    {
        static const double edge[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3, 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, -1.7976931348623157e308, 9007199254740993.0, 1e21, 1e22, 1e23, 123456789012345680.0, 3.141592653589793, 1e-7, 1e100 };
        if ( r.chance( 1, 3 ) ) return edge[ r.below( sizeof edge / sizeof *edge ) ];
        if ( r.chance( 1, 3 ) ) return double( r.range( -1000, 1000 ) ) / 8;
        for ( ;; )
        {
            uint64_t u = r.next();
            double d;
            memcpy( &d, &u, 8 );
            if ( d - d == 0 ) return d;
        }
    }

    inline int anyCount( Rng& r ) { return r.chance( 1, 20 ) ? r.range( 5, 40 ) : r.range( 0, 4 ); }

    using Statuses = std::set<Status>;

    template <class T> struct Model
    {
        // a struct with fields()
        static void make( Rng& r, T& t ) { T::fields( t, [ & ]( const char*, bool, auto& f ) { Model<std::decay_t<decltype( f )>>::make( r, f ); } ); }
        static bool eq( const T& a, const T& b )
        {
            std::vector<const void*> other;
            T::fields( b, [ & ]( const char*, bool, auto& f ) { other.push_back( &f ); } );
            size_t i = 0;
            bool same = true;
            T::fields( a, [ & ]( const char*, bool, auto& f ) {
                using F = std::decay_t<decltype( f )>;
                same = same && Model<F>::eq( f, *static_cast<const F*>( other[ i++ ] ) );
            } );
            return same;
        }
        static ref::Node node( const T& t )
        {
            ref::Node n;
            n.kind = ref::kObject;
            T::fields( t, [ & ]( const char* name, bool, auto& f ) { n.members.emplace_back( name, Model<std::decay_t<decltype( f )>>::node( f ) ); } );
            return n;
        }
        static void verdict( const ref::Node& n, Statuses& s )
        {
            if ( n.kind != ref::kObject ) { s.insert( Status::kInvalidValueType ); return; }
            T t {};
            T::fields( t, [ & ]( const char* name, bool opt, auto& f ) {
                for ( auto& m : n.members )
                    if ( m.first == name ) { Model<std::decay_t<decltype( f )>>::verdict( m.second, s ); return; }
                if ( !opt ) s.insert( Status::kNameNotPresent );
            } );
        }
        // what t becomes when n (which has no fault) is deserialized into it
        static void load( const ref::Node& n, T& t )
        {
            T::fields( t, [ & ]( const char* name, bool, auto& f ) {
                for ( auto& m : n.members )
                    if ( m.first == name ) { Model<std::decay_t<decltype( f )>>::load( m.second, f ); return; }
            } );
        }
    };

    inline ref::Node leaf( ref::Kind k ) { ref::Node n; n.kind = k; return n; }
    inline void want( const ref::Node& n, ref::Kind k, Statuses& s ) { if ( n.kind != k ) s.insert( Status::kInvalidValueType ); }

    template <> struct Model<double>
    {
        static void make( Rng& r, double& t ) { t = anyNumber( r ); }
        static bool eq( double a, double b ) { return lib::same( a, b ); }
        static ref::Node node( double t ) { ref::Node n = leaf( ref::kNumber ); n.number = t; return n; }
        static void verdict( const ref::Node& n, Statuses& s ) { want( n, ref::kNumber, s ); }
        static void load( const ref::Node& n, double& t ) { t = n.number; }
    };
    template <> struct Model<bool>
    {
        static void make( Rng& r, bool& t ) { t = r.chance( 1, 2 ); }
        static bool eq( bool a, bool b ) { return a == b; }
        static ref::Node node( bool t ) { ref::Node n = leaf( ref::kBool ); n.flag = t; return n; }
        static void verdict( const ref::Node& n, Statuses& s ) { want( n, ref::kBool, s ); }
        static void load( const ref::Node& n, bool& t ) { t = n.flag; }
    };
    template <> struct Model<Null>
    {
        static void make( Rng&, Null& ) {}
        static bool eq( const Null&, const Null& ) { return true; }
        static ref::Node node( const Null& ) { return leaf( ref::kNull ); }
        static void verdict( const ref::Node& n, Statuses& s ) { want( n, ref::kNull, s ); }
        static void load( const ref::Node&, Null& ) {}
    };
    template <> struct Model<String<>>
    {
        static void make( Rng& r, String<>& t ) { t = anyText( r ).c_str(); }
        static bool eq( const String<>& a, const String<>& b ) { return lib::str( a ) == lib::str( b ) && a.GetStringLength() == int( lib::str( a ).size() ) && b.GetStringLength() == int( lib::str( b ).size() ); }
        static ref::Node node( const String<>& t ) { ref::Node n = leaf( ref::kString ); n.text = lib::str( t ); return n; }
        static void verdict( const ref::Node& n, Statuses& s ) { want( n, ref::kString, s ); }
        static void load( const ref::Node& n, String<>& t ) { t = n.text.c_str(); }
    };
    template <> struct Model<std::string>
    {
        static void make( Rng& r, std::string& t ) { t = anyText( r ); }
        static bool eq( const std::string& a, const std::string& b ) { return a == b; }
        static ref::Node node( const std::string& t ) { ref::Node n = leaf( ref::kString ); n.text = t; return n; }
        static void verdict( const ref::Node& n, Statuses& s ) { want( n, ref::kString, s ); }
        static void load( const ref::Node& n, std::string& t ) { t = n.text; }
    };
    template <> struct Model<Pair>
    {
        static void make( Rng& r, Pair& t ) { Model<double>::make( r, t.a ); Model<String<>>::make( r, t.b ); }
        static bool eq( const Pair& a, const Pair& b ) { return Model<double>::eq( a.a, b.a ) && Model<String<>>::eq( a.b, b.b ); }
        static ref::Node node( const Pair& t )
        {
            ref::Node n = leaf( ref::kObject );
            n.members.emplace_back( "first", Model<double>::node( t.a ) );
            n.members.emplace_back( "second", Model<String<>>::node( t.b ) );
            return n;
        }
        static void verdict( const ref::Node& n, Statuses& s )
        {
            if ( n.kind != ref::kObject ) { s.insert( Status::kInvalidValueType ); return; }
            int seen = 0;
            for ( auto& m : n.members )
            {
                if ( m.first == "first" ) { seen |= 1; want( m.second, ref::kNumber, s ); }
                if ( m.first == "second" ) { seen |= 2; want( m.second, ref::kString, s ); }
            }
            if ( seen != 3 ) s.insert( Status::kNameNotPresent );
        }
        static void load( const ref::Node& n, Pair& t )
        {
            for ( auto& m : n.members )
            {
                if ( m.first == "first" ) t.a = m.second.number;
                if ( m.first == "second" ) t.b = m.second.text.c_str();
            }
        }
    };
    template <class T> struct Model<Array<T>>
    {
        static void make( Rng& r, Array<T>& t )
        {
            t.ClearArray();
            int n = anyCount( r );
            for ( int i = 0; i < n; i++ ) { T x {}; Model<T>::make( r, x ); t.AppendArrayElement( static_cast<T&&>( x ) ); }
        }
        static bool eq( const Array<T>& a, const Array<T>& b )
        {
            if ( a.GetArrayElementCount() != b.GetArrayElementCount() ) return false;
            for ( int i = 0; i < a.GetArrayElementCount(); i++ ) if ( !Model<T>::eq( a[ i ], b[ i ] ) ) return false;
            return true;
        }
        static ref::Node node( const Array<T>& t )
        {
            ref::Node n = leaf( ref::kArray );
            for ( const T& x : t ) n.items.push_back( Model<T>::node( x ) );
            return n;
        }
        static void verdict( const ref::Node& n, Statuses& s )
        {
            want( n, ref::kArray, s );
            if ( n.kind == ref::kArray ) for ( auto& x : n.items ) Model<T>::verdict( x, s );
        }
        static void load( const ref::Node& n, Array<T>& t )
        {
            t.ClearArray();
            for ( auto& c : n.items ) { T x {}; Model<T>::load( c, x ); t.AppendArrayElement( static_cast<T&&>( x ) ); }
        }
    };
    template <class T> struct Model<ObjectMap<T>>
    {
        static void make( Rng& r, ObjectMap<T>& t )
        {
            t.PurgeMap();
            int n = anyCount( r );
            for ( int i = 0; i < n; i++ )
            {
                auto* e = new ObjectMapElement<T>;
                e->name = anyText( r ).c_str();
                Model<T>::make( r, e->data );
                if ( !t.InsertMapElement( e ) ) delete e;
            }
        }
        static bool eq( const ObjectMap<T>& a, const ObjectMap<T>& b )
        {
            std::map<std::string, const T*> x, y;
            for ( auto* e : a ) x[ lib::str( e->name ) ] = &e->data;
            for ( auto* e : b ) y[ lib::str( e->name ) ] = &e->data;
            if ( x.size() != y.size() || int( x.size() ) != a.GetMapElementCount() || int( y.size() ) != b.GetMapElementCount() ) return false;
            for ( auto &p : x ) { auto q = y.find( p.first ); if ( q == y.end() || !Model<T>::eq( *p.second, *q->second ) ) return false; }
            return true;
        }
        static ref::Node node( const ObjectMap<T>& t )
        {
            ref::Node n = leaf( ref::kObject );
            for ( auto* e : t ) n.members.emplace_back( lib::str( e->name ), Model<T>::node( e->data ) );
            return n;
        }
        static void verdict( const ref::Node& n, Statuses& s )
        {
            want( n, ref::kObject, s );
            if ( n.kind == ref::kObject ) for ( auto& x : n.members ) Model<T>::verdict( x.second, s );
        }
        static void load( const ref::Node& n, ObjectMap<T>& t )
        {
            t.PurgeMap();
            for ( auto& c : n.members )
            {
                auto* e = new ObjectMapElement<T>;
                e->name = c.first.c_str();
                Model<T>::load( c.second, e->data );
                if ( !t.InsertMapElement( e ) ) delete e;
            }
        }
    };
    template <class T> struct Model<std::vector<T>>
    {
        static void make( Rng& r, std::vector<T>& t )
        {
            t.clear();
            int n = anyCount( r );
            for ( int i = 0; i < n; i++ ) { T x {}; Model<T>::make( r, x ); t.push_back( static_cast<T&&>( x ) ); }
        }
        static bool eq( const std::vector<T>& a, const std::vector<T>& b )
        {
            if ( a.size() != b.size() ) return false;
            for ( size_t i = 0; i < a.size(); i++ ) if ( !Model<T>::eq( a[ i ], b[ i ] ) ) return false;
            return true;
        }
        static ref::Node node( const std::vector<T>& t )
        {
            ref::Node n = leaf( ref::kArray );
            for ( const T& x : t ) n.items.push_back( Model<T>::node( x ) );
            return n;
        }
        static void verdict( const ref::Node& n, Statuses& s ) { Model<Array<T>>::verdict( n, s ); }
        static void load( const ref::Node& n, std::vector<T>& t )
        {
            t.clear();
            for ( auto& c : n.items ) { T x {}; Model<T>::load( c, x ); t.push_back( static_cast<T&&>( x ) ); }
        }
    };
    template <class T> struct Model<std::map<std::string, T>>
    {
        static void make( Rng& r, std::map<std::string, T>& t )
        {
            t.clear();
            int n = anyCount( r );
            for ( int i = 0; i < n; i++ ) { std::string k = anyText( r ); if ( !t.count( k ) ) Model<T>::make( r, t[ k ] ); }
        }
        static bool eq( const std::map<std::string, T>& a, const std::map<std::string, T>& b )
        {
            if ( a.size() != b.size() ) return false;
            for ( auto& p : a ) { auto q = b.find( p.first ); if ( q == b.end() || !Model<T>::eq( p.second, q->second ) ) return false; }
            return true;
        }
        static ref::Node node( const std::map<std::string, T>& t )
        {
            ref::Node n = leaf( ref::kObject );
            for ( auto& p : t ) n.members.emplace_back( p.first, Model<T>::node( p.second ) );
            return n;
        }
        static void verdict( const ref::Node& n, Statuses& s ) { Model<ObjectMap<T>>::verdict( n, s ); }
        static void load( const ref::Node& n, std::map<std::string, T>& t )
        {
            t.clear();
            for ( auto& c : n.members ) { if ( !t.count( c.first ) ) Model<T>::load( c.second, t[ c.first ] ); }
        }
    };

    // ---- what an object in use becomes ----------------------------------------

    template <class T, class = void> struct HasFields : std::false_type {};
    struct AnyVisitor { template <class... A> void operator()( A&&... ) const {} };
    template <class T> struct HasFields<T, std::void_t<decltype( T::fields( std::declval<T&>(), AnyVisitor {} ) )>> : std::true_type {};

    // what t, which already holds something, becomes when n (which has no fault) is deserialized into it
    template <class T> struct Update
    {
        static void go( const ref::Node& n, T& t )
        {
            if constexpr ( HasFields<T>::value )
                T::fields( t, [ & ]( const char* name, bool, auto& f ) {
                    for ( auto& m : n.members )
                        if ( m.first == name ) { Update<std::decay_t<decltype( f )>>::go( m.second, f ); return; }
                } );
            else Model<T>::load( n, t );
        }
    };
    template <class T> struct Update<ObjectMap<T>>
    {
        static void go( const ref::Node& n, ObjectMap<T>& t )
        {
            for ( auto& c : n.members )
            {
                ObjectMapElement<T>* e = nullptr;
                for ( auto* x : t ) if ( lib::str( x->name ) == c.first ) e = x;
                if ( e ) { Update<T>::go( c.second, e->data ); continue; }
                e = new ObjectMapElement<T>;
                e->name = c.first.c_str();
                Model<T>::load( c.second, e->data );
                if ( !t.InsertMapElement( e ) ) delete e;
            }
        }
    };
    template <class T> struct Update<std::map<std::string, T>>
    {
        static void go( const ref::Node& n, std::map<std::string, T>& t )
        {
            for ( auto& c : n.members )
            {
                auto p = t.find( c.first );
                if ( p != t.end() ) Update<T>::go( c.second, p->second );
                else Model<T>::load( c.second, t[ c.first ] );
            }
        }
    };
} // namespace types
