// C23: documents edited in place through the tree's pointers.
#include "ops.h"
#include "render.h"

using namespace lib;
using ops::Obj;
using ops::Ops;
using types::Statuses;
using vf::Rng;

std::vector<std::unique_ptr<Ops>>& ops::all()
{
    static std::vector<std::unique_ptr<Ops>> v;
    return v;
}

static std::vector<const Ops*> kinds;

static std::string fileName( const char* n ) { return vf::st.dir + "/" + n + "." + std::to_string( vf::st.shard ); }

// A value and its model, at the same place of both trees.
struct Place
{
    Value*     v;
    ref::Node* n;
};

struct History
{
    Rng&                        r;
    std::string                 log;
    std::vector<Value*>         kept;      // values taken out of a document; ours
    std::vector<ref::Node>      keptModel;
    std::vector<std::string>    names;     // some names that were used

    explicit History( Rng& rng ) : r( rng ) {}
    ~History() { for ( Value* v : kept ) delete v; }

    [[noreturn]] void bad( const std::string& what ) { vf::fail( what + " | edits: " + ( log.size() > 1500 ? "..." + log.substr( log.size() - 1500 ) : log ) ); }

    void keep( Value* v, ref::Node n )
    {
        uint64_t visited = 0;
        std::string e = compare( v, n, visited );
        if ( !e.empty() ) bad( "the value taken out is another: " + e );
        if ( kept.size() < 12 && r.chance( 1, 2 ) ) { kept.push_back( v ); keptModel.push_back( std::move( n ) ); }
        else delete v;
    }

    // A value no document owns.
    Value* take( ref::Node& n )
    {
        if ( !kept.empty() && r.chance( 1, 3 ) )
        {
            size_t i = r.below( uint32_t( kept.size() ) );
            Value* v = kept[ i ];
            n = keptModel[ i ];
            kept.erase( kept.begin() + long( i ) );
            keptModel.erase( keptModel.begin() + long( i ) );
            return v;
        }
        gen::Opt opt;
        opt.budget   = r.chance( 1, 3 ) ? 12 : 3;
        opt.maxDepth = 3;
        std::string t = "[" + gen::document( r, opt ) + "]";
        ref::Result x = ref::read( t );
        StructuredData d;
        if ( parse( d, t ).status != Status::kOk || !x.ok ) vf::harnessError( "donor " + vf::shown( t ) );
        Array<Value*>& a = *d.GetRootJsonValue()->GetDataAsPointerTo<Array<Value*>>();
        Value* v = a[ 0 ];
        if ( r.chance( 1, 2 ) ) a.PurgeArray();
        else a.RemoveArrayElement( 0 );
        n = x.root.items[ 0 ];
        return v;
    }

    Place descend( Value* root, ref::Node& model )
    {
        Place p { root, &model };
        while ( !r.chance( 1, 4 ) )
        {
            if ( p.n->kind == ref::kArray && !p.n->items.empty() )
            {
                uint32_t i = r.below( uint32_t( p.n->items.size() ) );
                p = { ( *p.v->GetDataAsPointerTo<Array<Value*>>() )[ int32( i ) ], &p.n->items[ i ] };
            }
            else if ( p.n->kind == ref::kObject && !p.n->members.empty() )
            {
                ref::Member& m = p.n->members[ r.below( uint32_t( p.n->members.size() ) ) ];
                Value* v = p.v->AsJsonObjectValue()->FindMapElement( m.first.c_str() );
                if ( !v ) bad( "no value is found under '" + vf::shown( m.first ) + "'" );
                p = { v, &m.second };
            }
            else break;
        }
        return p;
    }

    std::string name( const ref::Node& object )
    {
        if ( !object.members.empty() && r.chance( 2, 5 ) )
        {
            std::string n = object.members[ r.below( uint32_t( object.members.size() ) ) ].first;
            if ( r.chance( 1, 4 ) ) n += 'x';
            return n;
        }
        switch ( r.below( 4 ) )
        {
            case 0: return "k" + std::to_string( r.below( 40 ) );
            case 1: return std::string( 1, char( 'a' + r.below( 26 ) ) );
            case 2: return types::anyText( r );
            default: return std::string( size_t( gen::boundaryLength( r ) ), 'n' );
        }
    }

    // What stands at each place of a container, to see that edits elsewhere leave it there.
    static std::vector<Value*> addresses( Value* v, const ref::Node& n )
    {
        std::vector<Value*> o;
        if ( n.kind == ref::kArray ) for ( Value* e : *v->GetDataAsPointerTo<Array<Value*>>() ) o.push_back( e );
        if ( n.kind == ref::kObject ) for ( auto& m : n.members ) o.push_back( v->AsJsonObjectValue()->FindMapElement( m.first.c_str() ) );
        return o;
    }

    void leaf( Place p )
    {
        switch ( p.n->kind )
        {
            case ref::kString:
            {
                String<>& s = *p.v->GetDataAsPointerTo<String<>>();
                std::string t = types::anyText( r );
                switch ( r.below( 3 ) )
                {
                    case 0: s = t.c_str(); p.n->text = t; break;
                    case 1: s += t.c_str(); p.n->text += t; break;
                    default: { String<> u( t.c_str() ); s = static_cast<String<>&&>( u ); p.n->text = t; break; }
                }
                log += " string";
                break;
            }
            case ref::kNumber:
                p.n->number = r.chance( 1, 40 ) ? HUGE_VAL : types::anyNumber( r );
                *p.v->GetDataAsPointerTo<double>() = p.n->number;
                log += " number";
                break;
            case ref::kBool:
                p.n->flag = !p.n->flag;
                *p.v->GetDataAsPointerTo<bool>() = p.n->flag;
                log += " boolean";
                break;
            default: break;
        }
    }

    void array( Place p )
    {
        Array<Value*>&          a     = *p.v->GetDataAsPointerTo<Array<Value*>>();
        std::vector<ref::Node>& items = p.n->items;
        uint32_t                n     = uint32_t( items.size() );
        std::vector<Value*>     is    = addresses( p.v, *p.n );
        ref::Node               m;
        switch ( r.below( 7 ) )
        {
            case 0:
            {
                Value* v = take( m );
                a.AppendArrayElement( v );
                items.push_back( m );
                is.push_back( v );
                log += " append";
                break;
            }
            case 1:
            {
                Value* v = take( m );
                uint32_t i = r.below( n + 1 );
                a.InsertArrayElement( int32( i ), v );
                items.insert( items.begin() + i, m );
                is.insert( is.begin() + i, v );
                log += " insert[" + std::to_string( i ) + "]";
                break;
            }
            case 2: case 3:
            {
                if ( n == 0 ) return;
                uint32_t i = r.below( n );
                Value* v = a[ int32( i ) ];
                a.RemoveArrayElement( int32( i ) );
                ref::Node was = items[ i ];
                items.erase( items.begin() + i );
                is.erase( is.begin() + i );
                keep( v, was );
                log += " remove[" + std::to_string( i ) + "]";
                break;
            }
            case 4:
            {
                if ( n < 2 ) return;
                uint32_t i = r.below( n ), j = r.below( n );
                std::swap( a[ int32( i ) ], a[ int32( j ) ] );
                std::swap( items[ i ], items[ j ] );
                std::swap( is[ i ], is[ j ] );
                log += " swap[" + std::to_string( i ) + "," + std::to_string( j ) + "]";
                break;
            }
            case 5:
            {
                if ( n == 0 ) return;
                uint32_t i = r.below( n );
                Value* old = a[ int32( i ) ];
                Value* v = take( m );
                a[ int32( i ) ] = v;
                is[ i ] = v;
                ref::Node was = items[ i ];
                items[ i ] = m;
                keep( old, was );
                log += " replace[" + std::to_string( i ) + "]";
                break;
            }
            default:
                if ( !r.chance( 1, 6 ) ) return;
                for ( uint32_t i = 0; i < n; i++ ) keep( is[ i ], items[ i ] );
                if ( r.chance( 1, 2 ) ) a.PurgeArray();
                else a.ClearArray();
                items.clear();
                is.clear();
                log += " clear";
        }
        if ( addresses( p.v, *p.n ) != is ) bad( "values of the array are not where they were put" );
    }

    void object( Place p )
    {
        ObjectValue& o       = *p.v->AsJsonObjectValue();
        auto&        members = p.n->members;
        std::vector<Value*> was = addresses( p.v, *p.n );
        if ( r.chance( 1, 25 ) )
        {
            o.PurgeAccountedMapElements();
            members.clear();
            log += " purge";
            return;
        }
        ref::Node m;
        Value* v = take( m );
        std::string k = name( *p.n );
        v->name = k.c_str();
        if ( names.size() < 6 ) names.push_back( k );
        else names[ r.below( 6 ) ] = k;
        size_t at = 0;
        while ( at < members.size() && members[ at ].first != k ) at++;
        bool there = at < members.size();
        log += " " + vf::shown( k, 20 );
        if ( r.chance( 1, 2 ) )
        {
            log += there ? ":add again" : ":add";
            bool done = o.InsertAccountedMapElement( v );
            if ( done == there ) bad( there ? "a name that is there is taken again" : "a new name is refused" );
            if ( there ) keep( v, m );
            else { members.emplace_back( k, m ); was.push_back( v ); }
        }
        else
        {
            log += there ? ":replace" : ":put";
            Value* old = o.InsertReplaceAccountedMapElement( v );
            if ( old != ( there ? was[ at ] : nullptr ) ) bad( "replacing gives back another value than stood there" );
            if ( there )
            {
                ref::Node before = members[ at ].second;
                members[ at ].second = m;
                was[ at ] = v;
                keep( old, before );
            }
            else { members.emplace_back( k, m ); was.push_back( v ); }
        }
        if ( addresses( p.v, *p.n ) != was ) bad( "values of the object are not found where they were put" );
    }

    // An object of any type serialized into a value of the tree, or under a name of one.
    void store( Place p )
    {
        const Ops& o = *r.pick( kinds );
        Obj a = o.make( r );
        ref::Node m = o.node( a );
        std::vector<Value*> was = addresses( p.v, *p.n );
        if ( p.n->kind == ref::kObject && r.chance( 1, 2 ) )
        {
            auto& members = p.n->members;
            std::string k = name( *p.n );
            size_t at = 0;
            while ( at < members.size() && members[ at ].first != k ) at++;
            log += " " + vf::shown( k, 20 ) + "=" + o.name;
            Status s = o.serializeNamed( p.v, k.c_str(), a );
            if ( s != Status::kOk ) bad( std::string( "serializing under a name gives " ) + statusName( s ) );
            if ( at < members.size() ) members[ at ].second = m;
            else { members.emplace_back( k, m ); was.push_back( nullptr ); }
            std::vector<Value*> is = addresses( p.v, *p.n );
            for ( size_t i = 0; i < is.size(); i++ ) if ( i != at && is[ i ] != was[ i ] ) bad( "serializing under a name moves another value" );
            vf::event( "serialized under a name" );
            Obj b = o.fresh();
            Status v = o.validateNamed( p.v, k.c_str(), b );
            s = o.deserializeNamed( p.v, k.c_str(), b );
            if ( v != Status::kOk || s != Status::kOk || !o.eq( a, b ) ) bad( "what was serialized under '" + vf::shown( k, 40 ) + "' comes back as another object" );
            return;
        }
        if ( p.n->kind != ref::kObject && p.n->kind != ref::kArray && r.chance( 1, 3 ) )
        {
            log += " .x=" + o.name;
            Status s = o.serializeNamed( p.v, "x", a );
            if ( s != Status::kInvalidValueType ) bad( std::string( "serializing under a name of no object gives " ) + statusName( s ) );
            vf::event( "name of no object" );
            return;
        }
        if ( !o.whole() ) return;
        Obj b = o.fresh();
        Statuses want;
        o.verdict( *p.n, want );
        Status v = o.validateAt( p.v, b ), s = o.deserializeFrom( p.v, b );
        if ( v != s || ( want.empty() ? s != Status::kOk : !want.count( s ) ) ) bad( o.name + ": validation of a value gives " + statusName( v ) + ", deserialization " + statusName( s ) );
        log += " =" + o.name;
        s = o.serializeInto( p.v, a );
        if ( m.kind != p.n->kind )
        {
            if ( s != Status::kInvalidValueType ) bad( o.name + ": serializing into a value of another kind gives " + statusName( s ) );
            if ( addresses( p.v, *p.n ) != was ) bad( "a refused value changes the one that is there" );
            vf::event( "value of another kind" );
            return;
        }
        if ( s != Status::kOk ) bad( o.name + ": serializing into a value gives " + statusName( s ) );
        *p.n = m;
        b = o.fresh();
        s = o.deserializeFrom( p.v, b );
        if ( s != Status::kOk || !o.eq( a, b ) ) bad( o.name + ": what was serialized into a value comes back as another object" );
        vf::event( "serialized into a value" );
    }

    void edit( Value* root, ref::Node& model )
    {
        Place p = descend( root, model );
        if ( r.chance( 1, 5 ) ) { store( p ); return; }
        switch ( p.n->kind )
        {
            case ref::kArray: array( p ); break;
            case ref::kObject: object( p ); break;
            default: leaf( p ); break;
        }
    }
};

static bool finite( const ref::Node& n )
{
    if ( n.kind == ref::kNumber ) return n.number - n.number == 0;
    for ( auto& c : n.items ) if ( !finite( c ) ) return false;
    for ( auto& c : n.members ) if ( !finite( c.second ) ) return false;
    return true;
}

// The six typed queries, for a name.
static void query( History& h, const ObjectValue& o, const std::string& name, const Value* is )
{
    const char* k = name.c_str();
    const String<>* t = o.FindString( k );
    const double* d = o.FindNumber( k );
    const bool* b = o.FindBool( k );
    const Null* n = o.FindJsonNull( k );
    const Array<Value*>* a = o.FindJsonValueArray( k );
    const ObjectValue* q = o.FindJsonObjectValue( k );
    bool good = is ? t == is->GetDataAsPointerTo<String<>>() && d == is->GetDataAsPointerTo<double>() && b == is->GetDataAsPointerTo<bool>() && n == is->GetDataAsPointerTo<Null>() && a == is->GetDataAsPointerTo<Array<Value*>>() && q == is->AsJsonObjectValue()
                   : !t && !d && !b && !n && !a && !q && !o.FindMapElement( k );
    if ( !good ) h.bad( "a query for '" + vf::shown( name, 60 ) + ( is ? "' does not find the value that is there" : "' finds something" ) );
    vf::event( is ? "queries for a name" : "queries for an absent name" );
}

static void queries( History& h, const Value* v, const ref::Node& n )
{
    if ( n.kind == ref::kArray )
    {
        const Array<Value*>& a = *v->GetDataAsPointerTo<Array<Value*>>();
        for ( size_t i = 0; i < n.items.size(); i++ ) queries( h, a[ int32( i ) ], n.items[ i ] );
    }
    if ( n.kind != ref::kObject ) return;
    const ObjectValue& o = *v->AsJsonObjectValue();
    std::map<std::string, const Value*> all;
    for ( const Value* e : o ) all[ str( e->name ) ] = e;
    if ( all.size() != n.members.size() ) h.bad( "iteration over an object gives another number of values" );
    size_t step = n.members.size() > 40 ? n.members.size() / 20 : 1;
    for ( size_t i = h.r.below( uint32_t( step ) ); i < n.members.size(); i += step )
    {
        auto& m = n.members[ i ];
        query( h, o, m.first, all[ m.first ] );
        queries( h, all[ m.first ], m.second );
        if ( h.r.chance( 1, 4 ) ) query( h, o, m.first, all[ m.first ] );
    }
    for ( auto& k : h.names )
        if ( !all.count( k ) ) query( h, o, k, nullptr );
}

static void judge( History& h, StructuredData& d, const ref::Node& model )
{
    Rng& r = h.r;
    uint64_t visited = 0;
    std::string e = compare( d.GetRootJsonValue(), model, visited );
    vf::st.evaluations++;
    if ( !e.empty() ) h.bad( "the tree is not the edited one: " + e );
    if ( r.chance( 1, 2 ) ) queries( h, d.GetRootJsonValue(), model );
    if ( r.chance( 1, 3 ) )
    {
        std::string file = fileName( "edited" );
        Status s = d.Write( file.c_str(), r.below( 5 ), "\t "[ r.below( 2 ) ] );
        if ( !finite( model ) )
        {
            if ( s == Status::kOk ) h.bad( "a number that has no text is written" );
            vf::event( "writing refused" );
        }
        else
        {
            if ( s != Status::kOk ) h.bad( std::string( "writing gives " ) + statusName( s ) );
            std::string t = vf::readAll( file );
            ref::Result x = ref::read( t );
            if ( !x.ok ) h.bad( "what is written is no JSON text: " + vf::shown( t, 400 ) );
            if ( x.duplicates ) h.bad( "what is written repeats a name: " + vf::shown( t, 400 ) );
            e = compare( x.root, model );
            if ( !e.empty() ) h.bad( "another document is written: " + e + ": " + vf::shown( t, 400 ) );
            vf::event( "written" );
        }
    }
    if ( r.chance( 1, 3 ) )
    {
        const Ops& o = *r.pick( kinds );
        Statuses want;
        o.verdict( model, want );
        Obj a = o.fresh(), b = o.fresh();
        Status v = o.validate( d, a ), s = o.deserialize( d, b );
        if ( v != s || ( want.empty() ? s != Status::kOk : !want.count( s ) ) ) h.bad( o.name + ": validation of the edited document gives " + statusName( v ) + ", deserialization " + statusName( s ) );
        if ( s == Status::kOk )
        {
            o.load( model, a );
            if ( !o.eq( a, b ) ) h.bad( o.name + ": the edited document gives another object" );
            vf::event( "deserialized" );
        }
        else vf::event( "not of the type" );
    }
    visited = 0;
    e = compare( d.GetRootJsonValue(), model, visited );
    if ( !e.empty() ) h.bad( "reading changed the edited tree: " + e );
}

static void all()
{
    for ( auto& o : ops::all() ) kinds.push_back( o.get() );
    std::sort( kinds.begin(), kinds.end(), []( const Ops* a, const Ops* b ) { return a->name < b->name; } );

    // any document, any edits
    vf::stream( "edits", vf::scaled( 3000 ), [ & ]( uint64_t, Rng& r ) {
        gen::Opt opt;
        opt.budget = r.chance( 1, 3 ) ? 30 : 8;
        std::string t = r.chance( 1, 4 ) ? "{}" : r.chance( 1, 4 ) ? "[]" : r.chance( 1, 30 ) ? gen::large( r, r.range( 50, 600 ) ) : gen::document( r, opt );
        ref::Result x = ref::read( t );
        History h( r );
        {
            StructuredData d;
            if ( parse( d, t ).status != Status::kOk || !x.ok ) vf::harnessError( "document " + vf::shown( t ) );
            h.log = "parse(" + vf::shown( t, 300 ) + ")";
            uint64_t hash = vf::hashStr( t );
            for ( int n = r.range( 1, r.chance( 1, 6 ) ? 120 : 25 ); n > 0; n-- )
            {
                h.edit( d.GetRootJsonValue(), x.root );
                judge( h, d, x.root );
                vf::event( "edits" );
            }
            vf::nontrivial( vf::hashStr( h.log, hash ) );
            vf::sample( h.log );
            if ( r.chance( 1, 3 ) )
            {
                // the document is usable as before
                std::string u = gen::document( r, opt );
                if ( parse( d, u ).status != Status::kOk ) h.bad( "the edited document cannot be used again" );
                uint64_t visited = 0;
                std::string e = compare( d.GetRootJsonValue(), ref::read( u ).root, visited );
                if ( !e.empty() ) h.bad( "the edited document keeps something: " + e );
            }
        }
    } );

    // a serialized object, its leaves edited, back into an object
    size_t n = kinds.size();
    vf::stream( "leaves", n * vf::scaled( 40 ), [ & ]( uint64_t i, Rng& r ) {
        const Ops& o = *kinds[ i % n ];
        Obj a = o.make( r );
        ref::Node model = o.node( a );
        StructuredData d;
        if ( o.serialize( d, a ) != Status::kOk ) { vf::event( "not serialized" ); return; } // C08's business
        uint64_t visited = 0;
        if ( !compare( d.GetRootJsonValue(), model, visited ).empty() ) { vf::event( "serialized differently" ); return; }
        History h( r );
        h.log = o.name + " " + vf::shown( render( model ), 300 );
        for ( int k = r.range( 1, 8 ); k > 0; k-- )
        {
            Place p = h.descend( d.GetRootJsonValue(), model );
            h.leaf( p );
        }
        judge( h, d, model );
        Statuses want;
        o.verdict( model, want );
        Obj b = o.fresh(), c = o.fresh();
        Status s = o.deserialize( d, b );
        vf::st.evaluations++;
        if ( want.empty() ? s != Status::kOk : !want.count( s ) ) h.bad( std::string( "deserialization gives " ) + statusName( s ) );
        if ( s == Status::kOk )
        {
            o.load( model, c );
            if ( !o.eq( b, c ) ) h.bad( "deserialization gives another object than the edited one" );
            vf::event( "edited object read" );
        }
        vf::nontrivial( vf::hashStr( h.log + render( model ) ) );
        if ( r.chance( 1, 2 ) )
        {
            // serializing replaces all edits
            Obj z = o.make( r );
            if ( o.serialize( d, z ) != Status::kOk ) h.bad( "the edited document cannot be serialized into" );
            visited = 0;
            std::string e = compare( d.GetRootJsonValue(), o.node( z ), visited );
            if ( !e.empty() ) h.bad( "serialization keeps edits: " + e );
        }
    } );
}

int main( int argc, char** argv ) { return vf::main( argc, argv, all ); }
