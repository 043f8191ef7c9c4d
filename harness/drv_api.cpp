#include <set>
// The API layer: the operations of drv_core plus operations through handle objects.
#define API_HOOK
#include "drv_core.cpp"
#include <algorithm>
#include <all_api_entities.h>
#include <dll_iges_curve.h>
#include <dll_iges_geom_pcb.h>
#include <dll_mcad_outline.h>
#include <dll_mcad_segment.h>
#include <mcad_segment.h>
#include <mcad_outline.h>
#include <iges_geom_pcb.h>
static const int NHH = 8, NOO = 60;
struct HS { string k; int t; DLL_IGES_ENTITY* e; DLL_IGES* m; DLL_MCAD_SEGMENT* s; DLL_MCAD_OUTLINE* o; };
static HS H[NHH + 1];
struct OS { MCAD_SEGMENT* s; MCAD_OUTLINE* o; bool alive; };
static OS OB[NOO + 1];
static int oidS( MCAD_SEGMENT* p ) { if( !p ) return 0; for( int i = 1; i <= NOO; ++i ) if( OB[i].alive && OB[i].s == p ) return i; return -1; }
static int oidO( MCAD_OUTLINE* p ) { if( !p ) return 0; for( int i = 1; i <= NOO; ++i ) if( OB[i].alive && OB[i].o == p ) return i; return -1; }
static void regS( int i, MCAD_SEGMENT* p ) { OB[i] = { p, NULL, false }; p->AttachValidFlag( &OB[i].alive ); }
static void regO( int i, MCAD_OUTLINE* p ) { OB[i] = { NULL, p, false }; p->AttachValidFlag( &OB[i].alive ); }
static void forget( int i ) { if( !OB[i].alive ) return; if( OB[i].s ) OB[i].s->DetachValidFlag( &OB[i].alive ); else OB[i].o->DetachValidFlag( &OB[i].alive ); OB[i] = { NULL, NULL, false }; }

static DLL_IGES_ENTITY* mkE( int t, IGES* m, DLL_IGES* dm, bool viaD, bool cr )
{
#define MK( n ) case n: return viaD ? (DLL_IGES_ENTITY*)new DLL_IGES_ENTITY_##n( *dm, cr ) : (DLL_IGES_ENTITY*)new DLL_IGES_ENTITY_##n( m, cr );
    switch( t ) { MK(100) MK(102) MK(104) MK(110) MK(120) MK(122) MK(124) MK(126) MK(128) MK(142) MK(144) MK(308) MK(314) MK(406) MK(408) }
#undef MK
    return NULL;
}
static void freshE( int h, int id ) { IGES_ENTITY* p = H[h].e->m_entity; if( H[h].e->m_valid && p ) { reg( id, p ); defaults( p, 0, 1 ); } }
static int midFree( IGES* m ) { int i = midOf( m ); if( i > 0 ) MD[i] = NULL; return i; }
static void dropH( int h )
{
    HS& x = H[h];
    if( x.k == "ent" ) delete x.e;
    else if( x.k == "model" ) { if( x.m->m_valid ) midFree( x.m->m_iges ); delete x.m; }
    else if( x.k == "seg" ) delete x.s;
    else if( x.k == "out" ) delete x.o;
    x = HS();
}
static void hookEnd()
{
    // a handle may refer to what an outline has taken over: release, then delete what nothing owns
    set<void*> own;
    for( int h = 1; h <= NHH; ++h ) { if( H[h].k == "seg" ) H[h].s->Detach(); else if( H[h].k == "out" ) H[h].o->Detach(); }
    for( int h = 1; h <= NHH; ++h ) if( !H[h].k.empty() ) dropH( h );
    for( int i = 1; i <= NOO; ++i ) if( OB[i].alive && OB[i].o ) { for( auto z : *OB[i].o->GetCutouts() ) own.insert( z ); for( auto z : *OB[i].o->GetSegments() ) own.insert( z ); for( auto z : *OB[i].o->GetDrillHoles() ) own.insert( z ); }
    for( int i = 1; i <= NOO; ++i ) if( OB[i].alive && OB[i].o && !own.count( OB[i].o ) ) delete OB[i].o;
    for( int i = 1; i <= NOO; ++i ) if( OB[i].alive && OB[i].s ) delete OB[i].s;
    for( int i = 1; i <= NOO; ++i ) OB[i] = { NULL, NULL, false };
}
static void hookObs()
{
    vector<long> hv, pv, ov;
    for( int h = 1; h <= NHH; ++h )
    {
        HS& x = H[h]; long b = 0, p = 0; bool v = false, g = false;
        if( x.k == "ent" ) { v = x.e->IsValid(); b = v ? idOf( x.e->m_entity ) : 0; if( x.e->m_parent && x.e->m_hasParent ) p = midOf( x.e->m_parent ); g = x.e->GetRawPtr() != NULL; }
        else if( x.k == "model" ) { v = x.m->m_valid; b = v ? midOf( x.m->m_iges ) : 0; g = x.m->GetRawPtr() != NULL; }
        else if( x.k == "seg" ) { v = x.s->IsValid(); b = v ? oidS( x.s->m_segment ) : 0; g = x.s->GetRawPtr() != NULL; }
        else if( x.k == "out" ) { v = x.o->IsValid(); b = v ? oidO( x.o->m_outline ) : 0; g = x.o->GetRawPtr() != NULL; }
        hv.push_back( v == g ? b : -2 ); pv.push_back( p );
    }
    for( int i = 1; i <= NOO; ++i ) ov.push_back( OB[i].alive );
    fprintf( OUT, ",\"h\":%s,\"p\":%s,\"o\":%s", jarr( hv ).c_str(), jarr( pv ).c_str(), jarr( ov ).c_str() );
}
// a live object behind a handle argument, or NULL
static IGES_ENTITY* hp( int h ) { return h > 0 && H[h].k == "ent" && H[h].e->m_valid ? H[h].e->m_entity : NULL; }
template<class T> static T* hd( int h ) { return h > 0 && H[h].k == "ent" ? dynamic_cast<T*>( H[h].e ) : NULL; }

static bool hset( int h, int i, IGES_ENTITY* x, int hx )
{
    DLL_IGES_ENTITY* p = H[h].e; if( hx ) x = hp( hx );
    bool nul = ( x == NULL );
    if( i == 8 ) return hx ? p->SetTransform( *H[hx].e ) : p->SetTransform( x );
    if( i == 9 ) return hd<DLL_IGES_ENTITY_314>( hx ) ? p->SetColor( *hd<DLL_IGES_ENTITY_314>( hx ) ) : p->SetColor( x );
    IGES_CURVE* cv = as<IGES_CURVE>( x ); DLL_IGES_CURVE* dc = hd<DLL_IGES_CURVE>( hx );
    switch( H[h].t )
    {
        case 120: { auto q = (DLL_IGES_ENTITY_120*)p; if( dc ) return i == 1 ? q->SetAxis( *dc ) : q->SetGeneratrix( *dc ); if( cv || nul ) return i == 1 ? q->SetAxis( cv ) : q->SetGeneratrix( cv ); return false; }
        case 122: { auto q = (DLL_IGES_ENTITY_122*)p; if( cv || nul ) return q->SetDirectrix( cv ); return false; }
        case 142: { auto q = (DLL_IGES_ENTITY_142*)p; if( hx ) { DLL_IGES_ENTITY& d = *H[hx].e; return i == 1 ? q->SetSurface( d ) : i == 2 ? q->SetParameterSpaceBound( d ) : q->SetModelSpaceBound( d ); }
                    return i == 1 ? q->SetSurface( x ) : i == 2 ? q->SetParameterSpaceBound( x ) : q->SetModelSpaceBound( x ); }
        case 144: { auto q = (DLL_IGES_ENTITY_144*)p; if( i == 1 ) return hx ? q->SetSurface( *H[hx].e ) : q->SetSurface( x );
                    auto d = hd<DLL_IGES_ENTITY_142>( hx ); if( d ) return q->SetBoundCurve( *d ); auto y = as<IGES_ENTITY_142>( x ); return ( y || nul ) && q->SetBoundCurve( y ); }
        case 408: { auto q = (DLL_IGES_ENTITY_408*)p; auto y = as<IGES_ENTITY_308>( x ); if( y || nul ) return h % 2 ? q->SetDE( y ) : q->SetSubfigure( y ); return false; }
    }
    return false;
}
static bool happ( int h, IGES_ENTITY* x, int hx, bool rem )
{
    DLL_IGES_ENTITY* p = H[h].e; if( hx ) x = hp( hx );
    bool nul = ( x == NULL );
    switch( H[h].t )
    {
        case 102: { if( rem ) return false; auto q = (DLL_IGES_ENTITY_102*)p; auto d = hd<DLL_IGES_CURVE>( hx ); if( d ) return q->AddSegment( *d ); auto cv = as<IGES_CURVE>( x ); return ( cv || nul ) && q->AddSegment( cv ); }
        case 144: { auto q = (DLL_IGES_ENTITY_144*)p; auto d = hd<DLL_IGES_ENTITY_142>( hx ); auto y = as<IGES_ENTITY_142>( x );
                    if( d ) return rem ? q->DelCutout( *d ) : q->AddCutout( *d ); if( rem ) return y && q->DelCutout( y ); return ( y || nul ) && q->AddCutout( y ); }
        case 308: { auto q = (DLL_IGES_ENTITY_308*)p; if( hx ) { DLL_IGES_ENTITY* d = H[hx].e; return rem ? q->DelDE( d ) : q->AddDE( d ); } return rem ? q->DelDE( x ) : q->AddDE( x ); }
    }
    return false;
}
static bool hat( int h, int i, int v )
{
    DLL_IGES_ENTITY* p = H[h].e;
    switch( i )
    {
        case 1: return p->SetDependency( (IGES_STAT_DEPENDS)v ); case 2: return p->SetEntityUse( (IGES_STAT_USE)v );
        case 3: return p->SetHierarchy( (IGES_STAT_HIER)v ); case 4: return p->SetVisibility( v != 0 );
        case 5: return p->SetColor( (IGES_COLOR)v ); case 6: return p->SetLevel( v ); case 7: return p->SetLineWeightNum( v );
        case 8: return p->SetEntitySubscript( v ); case 9: return p->SetLineFontPattern( (IGES_LINEFONT_PATTERN)v ); case 10: return p->SetEntityForm( v );
    }
    return false;
}
static string pr( const vector<string>& v ) { string s = "["; for( size_t i = 0; i < v.size(); ++i ) s += ( i ? "," : "" ) + v[i]; return s + "]"; }
static string cs( const char* s ) { return s ? "\"" + string( s ) + "\"" : "\"-\""; }
static string num( double d ) { char b[40]; sprintf( b, "\"%.9g\"", d ); return b; }
struct Two { vector<string> g, c; bool ok, rr; Two() : ok( true ) {}
    void s( bool r, const string& a, const string& b ) { ok &= r; g.push_back( a ); c.push_back( b ); }
    void n( bool r, double a, double b ) { s( r, num( a ), num( b ) ); }
    void z( bool r, const char* a, const string& b ) { s( r, cs( a ), cs( b.c_str() ) ); }
    void p( bool r, MCAD_POINT a, MCAD_POINT b ) { n( r, a.x, b.x ); n( r, a.y, b.y ); n( r, a.z, b.z ); } };
// the call is made before its results are read
#define TN( r, a, b ) ( T.rr = ( r ), T.n( T.rr, a, b ) )
#define TZ( r, a, b ) ( T.rr = ( r ), T.z( T.rr, a, b ) )
#define TS( r, a, b ) ( T.rr = ( r ), T.s( T.rr, a, b ) )
#define TP( r, a, b ) ( T.rr = ( r ), T.p( T.rr, a, b ) )
// everything readable of an entity, through the handle and directly
static Two hget( int h )
{
    Two T; DLL_IGES_ENTITY* d = H[h].e; IGES_ENTITY* e = d->m_entity; IGES_ENTITY* x = NULL; IGES_ENTITY* y = NULL; int a = -9; size_t n = 0;
    TN( d->GetNOptionalEntities( a ), a, e->GetNOptionalEntities() );
    { IGES_ENTITY** l = NULL; IGES_ENTITY** l2 = NULL; size_t n2 = 0; bool r = d->GetOptionalEntities( n, l ), r2 = e->GetOptionalEntities( n2, l2 ); TN( r == r2, r ? n : 0, r2 ? n2 : 0 ); for( size_t i = 0; r && r2 && i < n && i < n2; ++i ) TN( true, idOf( l[i] ), idOf( l2[i] ) ); }
    TN( d->GetNComments( a ), a, e->GetNComments() );
    { char const** l = NULL; bool r = d->GetComments( n, l ); size_t m = e->GetNComments(); TN( r == ( m > 0 ), r ? n : 0, m ); size_t k = 0; for( auto& s : e->comments ) { if( r && k < n ) TZ( true, l[k], s ); ++k; } }
    IGES* m = NULL; TN( d->GetParentIGES( m ), midOf( m ), midOf( e->GetParentIGES() ) );
    TN( d->GetEntityType( a ), a, e->GetEntityType() ); TN( d->GetEntityForm( a ), a, e->GetEntityForm() );
    { bool r = d->GetStructure( x ), r2 = e->GetStructure( &y ); TN( r == r2, r ? idOf( x ) : 0, r2 ? idOf( y ) : 0 ); }
    IGES_LINEFONT_PATTERN lf, lf2; TN( d->GetLineFontPattern( lf ) == e->GetLineFontPattern( lf2 ), lf, lf2 );
    int b = -9; TN( d->GetLevel( a ) == e->GetLevel( b ), a, b );
    { x = y = NULL; bool r = d->GetTransform( x ), r2 = e->GetTransform( &y ); TN( r == r2, r ? idOf( x ) : 0, r2 ? idOf( y ) : 0 ); }
    { IGES_COLOR c1 = COLOR_NONE, c2 = COLOR_NONE; bool r = d->GetColor( c1 ), r2 = e->GetColor( c2 ); TN( r == r2, r ? c1 : 0, r2 ? c2 : 0 ); }
    { x = y = NULL; bool r = d->GetColorEntity( x ), r2 = e->GetColorEntity( &y ); TN( r == r2, r ? idOf( x ) : 0, r2 ? idOf( y ) : 0 ); }
    TN( d->GetLineWeightNum( a ), a, [&]{ int q = (int)0; e->GetLineWeightNum( q ); return q; }() );
    { char const* s = NULL; char const* s2 = e->GetLabel(); d->GetLabel( s ); TZ( true, s ? s : "", s2 ? s2 : "" ); }
    TN( d->GetEntitySubscript( a ), a, [&]{ int q = (int)0; e->GetEntitySubscript( q ); return q; }() );
    { bool v = false; TN( d->GetVisibility( v ), v, [&]{ bool q = (bool)0; e->GetVisibility( q ); return q; }() ); }
    { IGES_STAT_DEPENDS v; TN( d->GetDependency( v ), v, [&]{ IGES_STAT_DEPENDS q = (IGES_STAT_DEPENDS)0; e->GetDependency( q ); return q; }() ); }
    { IGES_STAT_USE v; TN( d->GetEntityUse( v ), v, [&]{ IGES_STAT_USE q = (IGES_STAT_USE)0; e->GetEntityUse( q ); return q; }() ); }
    { IGES_STAT_HIER v; TN( d->GetHierarchy( v ), v, [&]{ IGES_STAT_HIER q = (IGES_STAT_HIER)0; e->GetHierarchy( q ); return q; }() ); }
    if( DLL_IGES_CURVE* c = dynamic_cast<DLL_IGES_CURVE*>( d ) )
    {
        IGES_CURVE* k = as<IGES_CURVE>( e ); MCAD_POINT p, q;
        TN( true, c->IsClosed(), k->IsClosed() ); TN( true, c->GetNCurves(), k->GetNCurves() ); TN( true, c->GetNSegments(), k->GetNSegments() );
        TN( true, idOf( c->GetCurve( 0 ) ), idOf( k->GetCurve( 0 ) ) );
        for( int xf = 0; xf < 2; ++xf ) { p = q = MCAD_POINT( 0, 0, 0 ); bool r = c->GetStartPoint( p, xf ), r2 = k->GetStartPoint( q, xf ); TP( r == r2, p, q ); p = q = MCAD_POINT( 0, 0, 0 ); r = c->GetEndPoint( p, xf ); r2 = k->GetEndPoint( q, xf ); TP( r == r2, p, q ); }
    }
    switch( H[h].t )
    {
        case 120: { auto q = (DLL_IGES_ENTITY_120*)d; auto k = as<IGES_ENTITY_120>( e ); IGES_CURVE *c1 = NULL, *c2 = NULL; bool r = q->GetAxis( &c1 ), r2 = k->GetAxis( &c2 ); TN( r == r2, idOf( c1 ), idOf( c2 ) );
                    c1 = c2 = NULL; r = q->GetGeneratrix( &c1 ); r2 = k->GetGeneratrix( &c2 ); TN( r == r2, idOf( c1 ), idOf( c2 ) ); } break;
        case 122: { IGES_CURVE *c1 = NULL, *c2 = NULL; bool r = ((DLL_IGES_ENTITY_122*)d)->GetDirectrix( c1 ), r2 = as<IGES_ENTITY_122>( e )->GetDE( c2 ); TN( r == r2, idOf( c1 ), idOf( c2 ) ); } break;
        case 124: { MCAD_TRANSFORM t; auto k = as<IGES_ENTITY_124>( e ); bool r = ((DLL_IGES_ENTITY_124*)d)->GetOverallTransform( t ); MCAD_TRANSFORM u = k->GetTransformMatrix(); for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) TN( r, t.R.v[i][j], u.R.v[i][j] ); TP( r, t.T, u.T ); } break;
        case 142: { auto q = (DLL_IGES_ENTITY_142*)d; auto k = as<IGES_ENTITY_142>( e ); x = y = NULL; bool r = q->GetSurface( &x ), r2 = k->GetSPTR( &y ); TN( r == r2, idOf( x ), idOf( y ) );
                    x = y = NULL; r = q->GetParameterSpaceBound( &x ); r2 = k->GetBPTR( &y ); TN( r == r2, idOf( x ), idOf( y ) ); x = y = NULL; r = q->GetModelSpaceBound( &x ); r2 = k->GetCPTR( &y ); TN( r == r2, idOf( x ), idOf( y ) ); } break;
        case 144: { auto q = (DLL_IGES_ENTITY_144*)d; auto k = as<IGES_ENTITY_144>( e ); x = NULL; bool r = q->GetSurface( x ); y = k->PTS; TN( r == ( y != NULL ), idOf( x ), idOf( y ) );
                    bool ok2; IGES_ENTITY_142* b1 = NULL; r = q->GetBoundCurve( b1 ); { IGES_ENTITY_142* b2 = NULL; ok2 = k->GetPTO( b2 ); } TN( r == ok2, idOf( b1 ), idOf( k->PTO ) ); TN( q->GetNCutouts( a ), a, k->PTI.size() );
                    IGES_ENTITY_142** l = NULL; n = 0; r = q->GetCutouts( n, l ); TN( r == !k->PTI.empty(), r ? n : 0, k->PTI.size() ); size_t i = 0; for( auto z : k->PTI ) { if( r && i < n ) TN( true, idOf( l[i] ), idOf( z ) ); ++i; } } break;
        case 308: { auto q = (DLL_IGES_ENTITY_308*)d; auto k = as<IGES_ENTITY_308>( e ); TN( q->GetNumDE( n ), n, k->DE.size() ); IGES_ENTITY** l = NULL; n = 0; bool r = q->GetDEList( n, l ); TN( r == !k->DE.empty(), r ? n : 0, k->DE.size() );
                    size_t i = 0; for( auto z : k->DE ) { if( r && i < n ) TN( true, idOf( l[i] ), idOf( z ) ); ++i; } TN( q->GetNestDepth( a ), a, k->getDepthLevel() ); const char* s = NULL; TZ( q->GetName( s ), s, k->NAME ); } break;
        case 408: { auto q = (DLL_IGES_ENTITY_408*)d; auto k = as<IGES_ENTITY_408>( e ); IGES_ENTITY_308 *s1 = NULL, *s2 = NULL; bool r = q->GetDE( s1 ), r2 = k->GetDE( s2 ); TN( r == r2, idOf( s1 ), idOf( s2 ) ); s1 = NULL; r = q->GetSubfigure( s1 ); TN( r == r2, idOf( s1 ), idOf( s2 ) ); } break;
    }
    return T;
}
// set every value through the handle, read it back through the handle and directly; then restore
static Two hval( int h, int k )
{
    Two T; DLL_IGES_ENTITY* d = H[h].e; IGES_ENTITY* e = d->m_entity; vector<double> v = vals( e ), o = v, w; bool ok = true;
    for( size_t i = 0; i < v.size(); ++i ) v[i] = k + 0.25 * (double)( i + 1 );
    MCAD_POINT p; bool alt = k % 2;
    auto PT = [&]( int i ) { return MCAD_POINT( v[i], v[i + 1], v[i + 2] ); };
    auto W = [&]( std::initializer_list<double> l ) { for( double x : l ) w.push_back( x ); };
    switch( H[h].t )
    {
        case 100: { auto q = (DLL_IGES_ENTITY_100*)d; if( alt ) { ok &= q->SetCircleCenter( v[1], v[2], v[0] ) && q->SetCircleStart( v[3], v[4] ) && q->SetCircleEnd( v[5], v[6] ); }
                    else ok &= q->SetCircleCenter( MCAD_POINT( v[1], v[2], v[0] ) ) && q->SetCircleStart( MCAD_POINT( v[3], v[4], 0 ) ) && q->SetCircleEnd( MCAD_POINT( v[5], v[6], 0 ) );
                    double x, y, z, x1, y1, x2, y2; ok &= q->GetCircleCenter( x, y, z ) && q->GetCircleStart( x1, y1, z ) && q->GetCircleEnd( x2, y2, z ); W( { z, x, y, x1, y1, x2, y2 } );
                    MCAD_POINT c, s, t; ok &= q->GetCircleCenter( c ) && q->GetCircleStart( s ) && q->GetCircleEnd( t ); TN( ok, c.x, x ); TN( ok, c.y, y ); TN( ok, s.x, x1 ); TN( ok, t.y, y2 ); TN( ok, t.z, z ); TN( ok, c.z, z ); TN( ok, s.z, z ); TN( ok, s.y, y1 ); TN( ok, t.x, x2 ); } break;
        case 104: { auto q = (DLL_IGES_ENTITY_104*)d; if( alt ) ok &= q->SetConicStart( v[7], v[8], v[6] ) && q->SetConicEnd( v[9], v[10] ); else ok &= q->SetConicStart( MCAD_POINT( v[7], v[8], v[6] ) ) && q->SetConicEnd( MCAD_POINT( v[9], v[10], v[6] ) );
                    ok &= q->SetConicParams( v[0], v[1], v[2], v[3], v[4], v[5] ); double a, b, c, dd, ee, f, x, y, z; ok &= q->GetConicParams( a, b, c, dd, ee, f ); W( { a, b, c, dd, ee, f } );
                    ok &= q->GetConicStart( x, y, z ); W( { z, x, y } ); ok &= q->GetConicEnd( x, y, z ); W( { x, y } ); TN( true, z, v[6] ); MCAD_POINT s, t; ok &= q->GetConicStart( s ) && q->GetConicEnd( t ); TP( ok, s, MCAD_POINT( v[7], v[8], v[6] ) ); TP( ok, t, MCAD_POINT( v[9], v[10], v[6] ) ); } break;
        case 110: { auto q = (DLL_IGES_ENTITY_110*)d; ok &= alt ? q->SetLineStart( v[0], v[1], v[2] ) && q->SetLineEnd( v[3], v[4], v[5] ) : q->SetLineStart( PT(0) ) && q->SetLineEnd( PT(3) );
                    double x, y, z; ok &= q->GetLineStart( x, y, z ); W( { x, y, z } ); ok &= q->GetLineEnd( x, y, z ); W( { x, y, z } ); MCAD_POINT s, t; ok &= q->GetLineStart( s ) && q->GetLineEnd( t ); TP( ok, s, PT(0) ); TP( ok, t, PT(3) ); } break;
        case 120: { auto q = (DLL_IGES_ENTITY_120*)d; v[0] = 0.25 * ( k % 8 ); v[1] = v[0] + 1.5; ok &= q->SetAngles( v[0], v[1] ); double a, b; ok &= q->GetAngles( a, b ); W( { a, b } ); } break;
        case 122: { auto q = (DLL_IGES_ENTITY_122*)d; ok &= alt ? q->SetGeneratrixEnd( v[0], v[1], v[2] ) : q->SetGeneratrixEnd( PT(0) ); double x, y, z; ok &= q->GetGeneratrixEnd( x, y, z ); W( { x, y, z } ); ok &= q->GetGeneratrixEnd( p ); TP( ok, p, PT(0) ); } break;
        case 124: { auto q = (DLL_IGES_ENTITY_124*)d; MCAD_TRANSFORM t, u; v = { 0, -1, 0, (double)k, 1, 0, 0, k + 1., 0, 0, 1, k + 2. }; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) t.R.v[i][j] = v[i * 4 + j]; t.T = MCAD_POINT( v[3], v[7], v[11] );
                    ok &= alt ? q->SetRootTransform( t ) : q->SetRootTransform( &t ); ok &= q->GetRootTransform( u ); for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) w.push_back( u.R.v[i][j] ); w.push_back( i == 0 ? u.T.x : i == 1 ? u.T.y : u.T.z ); } } break;
        case 126: { auto q = (DLL_IGES_ENTITY_126*)d; bool q0 = k & 1; int nc = q0 ? 12 : 9; double kn[5] = { 0, 0, 0.5, 1, 1 }, c[12]; for( int i = 0; i < nc; ++i ) c[i] = k + 0.25 * ( i + 1 ); double b0 = k % 3 * .125, b1 = 1 - k % 5 * .0625; ok &= q->SetNURBSData( 3, 2, kn, c, q0, b0, b1 );
                    int n = 0, od = 0; double *a = NULL, *b = NULL, v0, v1; bool r, cl, pe; ok &= q->GetNURBSData( n, od, &a, &b, r, cl, pe, v0, v1 ); if( ok ) { W( { (double)n, (double)od, (double)r, (double)cl, (double)pe, v0, v1 } ); for( int i = 0; i < n + od; ++i ) w.push_back( a[i] ); for( int i = 0; i < n * ( q0 ? 4 : 3 ); ++i ) w.push_back( b[i] ); }
                    v = { 3, 2, (double)q0, 0, 0, b0, b1, 0, 0, .5, 1, 1 }; for( int i = 0; i < nc; ++i ) v.push_back( c[i] ); if( w.size() > 4 ) v[3] = w[3], v[4] = w[4];
                    bool x = false; ok &= q->IsRational( x ); TN( true, x, r ); ok &= q->isPeriodic( x ); TN( true, x, pe ); } break;
        case 128: { auto q = (DLL_IGES_ENTITY_128*)d; bool q0 = k & 1, q1 = k / 2 & 1, q2 = k / 4 & 1; int nc = q0 ? 24 : 18; double k1[4] = { 0, 0, 1, 1 }, k2[5] = { 0, 0, .5, 1, 1 }, c[24]; for( int i = 0; i < nc; ++i ) c[i] = k + 0.25 * ( i + 1 ); double b0 = k % 3 * .125, b1 = 1 - k % 5 * .0625, b2 = k % 4 * .03125, b3 = 1 - k % 7 * .03125; ok &= q->SetNURBSData( 2, 3, 2, 2, k1, k2, c, q0, q1, q2, b0, b1, b2, b3 );
                    int n1 = 0, n2 = 0, o1 = 0, o2 = 0; double *a = NULL, *b = NULL, *g = NULL, u0, u1, v0, v1; bool r, c1, c2, p1, p2; ok &= q->GetNURBSData( n1, n2, o1, o2, &a, &b, &g, r, c1, c2, p1, p2, u0, u1, v0, v1 );
                    if( ok ) { W( { (double)n1, (double)n2, (double)o1, (double)o2, (double)r, (double)c1, (double)c2, (double)p1, (double)p2, u0, u1, v0, v1 } ); for( int i = 0; i < n1 + o1; ++i ) w.push_back( a[i] ); for( int i = 0; i < n2 + o2; ++i ) w.push_back( b[i] ); for( int i = 0; i < n1 * n2 * ( q0 ? 4 : 3 ); ++i ) w.push_back( g[i] ); }
                    v = { 2, 3, 2, 2, (double)q0, 0, 0, (double)q1, (double)q2, b0, b1, b2, b3, 0, 0, 1, 1, 0, 0, .5, 1, 1 }; for( int i = 0; i < nc; ++i ) v.push_back( c[i] ); if( w.size() > 6 ) v[5] = w[5], v[6] = w[6];
                    bool x = false; ok &= q->isClosed1( x ); TN( true, x, c1 ); ok &= q->isClosed2( x ); TN( true, x, c2 ); ok &= q->isPeriodic1( x ); TN( true, x, p1 ); ok &= q->isPeriodic2( x ); TN( true, x, p2 ); } break;
        case 142: { auto q = (DLL_IGES_ENTITY_142*)d; v = { (double)( k % 4 ), (double)( k / 4 % 4 ) }; ok &= q->SetCurveCreationFlag( (CURVE_CREATION)v[0] ) && q->SetCurvePreference( (BOUND_CURVE_PREF)v[1] ); CURVE_CREATION c; BOUND_CURVE_PREF b; ok &= q->GetCurveCreationFlag( c ) && q->GetCurvePreference( b ); W( { (double)c, (double)b } ); } break;
        case 308: { auto q = (DLL_IGES_ENTITY_308*)d; auto z = as<IGES_ENTITY_308>( e ); string old = z->NAME, nm = "n" + to_string( k ); const char* s = NULL; ok &= q->SetName( nm.c_str() ) && q->GetName( s ); TZ( ok, s, nm ); TZ( ok, z->NAME.c_str(), nm ); z->NAME = old; } break;
        case 314: { auto q = (DLL_IGES_ENTITY_314*)d; auto z = as<IGES_ENTITY_314>( e ); ok &= q->SetColor( v[0], v[1], v[2] ); double a, b, c; ok &= q->GetColor( a, b, c ); W( { a, b, c } ); string old = z->cname, nm = "n" + to_string( k ); const char* s = NULL; ok &= q->SetName( nm.c_str() ) && q->GetName( s ); TZ( ok, s, nm ); TZ( ok, z->cname.c_str(), nm ); z->cname = old; } break;
        case 406: { auto q = (DLL_IGES_ENTITY_406*)d; string nm = "n" + to_string( k ); ok &= q->SetProperty_Name( nm.c_str() ); const char* s = q->GetProperty_Name(); TZ( ok, s, nm ); const std::string* z = (const std::string*)as<IGES_ENTITY_406>( e )->GetData(); TZ( ok, z ? z->c_str() : "", nm ); as<IGES_ENTITY_406>( e )->SetData( "prop" ); } break;
        case 408: { auto q = (DLL_IGES_ENTITY_408*)d; ok &= q->SetSubfigParams( v[0], v[1], v[2], v[3] ); double x, y, z, s; ok &= q->GetSubfigParams( x, y, z, s ); W( { x, y, z, s } ); } break;
    }
    vector<double> u = vals( e );
    TN( ok, w.size(), v.size() ); TN( true, u.size(), v.size() );
    for( size_t i = 0; i < v.size() && i < w.size() && i < u.size(); ++i ) { TN( true, w[i], v[i] ); TN( true, u[i], v[i] ); }
    if( H[h].t == 126 && o.size() > 5 ) o.erase( o.begin() + 3, o.begin() + 5 );
    if( H[h].t == 128 && o.size() > 7 ) o.erase( o.begin() + 5, o.begin() + 7 );
    if( !o.empty() ) setVals( e, o );
    // the entity's own comments, label
    const char* cm = "a comment"; int n0 = e->GetNComments(), n1 = -1; bool r = d->AddComment( cm ); d->GetNComments( n1 ); TN( r, n1, n0 + 1 ); if( r ) TZ( true, e->comments.back().c_str(), "a comment" );
    r = d->DelComment( n0 ); d->GetNComments( n1 ); TN( r, n1, n0 );
    const char* lb = NULL; string ol = e->GetLabel() ? e->GetLabel() : ""; r = d->SetLabel( "LBL" ); if( H[h].t != 314 && H[h].t != 406 ) { d->GetLabel( lb ); TZ( r, lb, "LBL" ); } e->SetLabel( ol );
    return T;
}
static Two mval( DLL_IGES* d, int k )
{
    Two T; IGES* m = d->m_iges; IGES_GLOBAL old = m->globalData; IGES_GLOBAL& g = m->globalData; string a = "s" + to_string( k ), b = "t" + to_string( k ), c = "u" + to_string( k ), e = "v" + to_string( k ), f = "w" + to_string( k );
    const char* s = NULL; bool r;
    r = d->SetProductID_SendingSystem( a.c_str() ); TZ( r, g.productIDSS.c_str(), a ); r = d->GetProductID_SendingSystem( s ); TZ( r, s, a );
    r = d->SetProductID_ReceivingSystem( b.c_str() ); TZ( r, g.productIDRS.c_str(), b ); r = d->GetProductID_ReceivingSystem( s ); TZ( r, s, b );
    r = d->SetNativeSystemID( c.c_str() ); TZ( r, g.nativeSystemID.c_str(), c ); r = d->GetNativeSystemID( s ); TZ( r, s, c );
    r = d->SetAuthor( e.c_str() ); TZ( r, g.author.c_str(), e ); r = d->GetAuthor( s ); TZ( r, s, e );
    r = d->SetOrganization( f.c_str() ); TZ( r, g.organization.c_str(), f ); r = d->GetOrganization( s ); TZ( r, s, f );
    r = d->SetApplicationNote( a.c_str() ); TZ( r, g.applicationNote.c_str(), a ); r = d->GetApplicationNote( s ); TZ( r, s, a );
    IGES_UNIT u; r = d->SetUnitsFlag( (IGES_UNIT)( 1 + k % 2 ) ); TN( r, g.unitsFlag, 1 + k % 2 ); r = d->GetUnitsFlag( u ); TN( r, u, 1 + k % 2 );
    int i; r = d->SetMaxLineWidthGrad( 3 + k ); TN( r, g.maxLinewidthGrad, 3 + k ); r = d->GetMaxLineWidthGrad( i ); TN( r, i, 3 + k );
    double x; r = d->SetMaxLineWidth( k + .5 ); TN( r, g.maxLinewidth, k + .5 ); r = d->GetMaxLineWidth( x ); TN( r, x, k + .5 );
    r = d->SetMinResolution( k + .25 ); TN( r, g.minResolution, k + .25 ); r = d->GetMinResolution( x ); TN( r, x, k + .25 );
    IGES_DRAFTING_STANDARD ds; r = d->SetDraftingStandard( (IGES_DRAFTING_STANDARD)( 1 + k % 5 ) ); TN( r, g.draftStandard, 1 + k % 5 ); r = d->GetDraftingStandard( ds ); TN( r, ds, 1 + k % 5 );
    g.preprocessorVersion = a; g.creationDate = b; g.modificationDate = c; g.unitsName = "MM";
    r = d->GetPreprocessorVersion( s ); TZ( r, s, a ); r = d->GetCreationDate( s ); TZ( r, s, b ); r = d->GetModificationDate( s ); TZ( r, s, c );
    r = d->GetUnitsName( s ); TZ( r, s, m->GetUnitName() ? m->GetUnitName() : "-" ); r = d->GetIGESVersionFlag( i ); TN( r, i, g.igesVersion );
    m->globalData = old;
    TN( true, d->GetNHeaderLines(), m->GetNHeaderLines() );
    return T;
}
static Two sval( DLL_MCAD_SEGMENT* d )
{
    Two T; MCAD_SEGMENT* q = d->m_segment; MCAD_SEGTYPE t, t2 = q->GetSegType(); TN( d->GetSegType( t ), t, t2 ); double x = 0; MCAD_POINT p, p2;
    if( t2 == MCAD_SEGTYPE_NONE ) return T;
    TP( d->GetStart( p ), p, q->GetStart() ); TP( d->GetEnd( p ), p, q->GetEnd() ); TN( d->GetLength( x ), x, q->GetLength() );
    if( t2 != MCAD_SEGTYPE_LINE )
    {
        TN( d->GetRadius( x ), x, q->GetRadius() ); TP( d->GetCenter( p ), p, q->GetCenter() );
        TN( d->GetStartAngle( x ), x, q->GetStartAngle() ); TN( d->GetEndAngle( x ), x, q->GetEndAngle() ); TN( d->GetFirstAngle( x ), x, q->GetMSAngle() ); TN( d->GetLastAngle( x ), x, q->GetMEAngle() );
        TP( d->GetFirstPoint( p ), p, q->GetMStart() ); TP( d->GetLastPoint( p ), p, q->GetMEnd() ); bool b = false; TN( d->IsCW( b ), b, q->IsCW() );
    }
    MCAD_POINT a, b, c, e; bool r = d->GetBoundingBox( a, b ), r2 = q->GetBoundingBox( c, e ); TP( r == r2, a, c ); TP( true, b, e );
    bool m1 = d->GetMidpoint( p ), m2 = q->GetMidpoint( p2 ); TP( m1 == m2, p, p2 );
    MCAD_SEGMENT z; z.SetParams( MCAD_POINT( -1, 4, 0 ), MCAD_POINT( 40, 5, 0 ) ); list<MCAD_POINT> L; MCAD_INTERSECT_FLAG f1, f2; bool i2 = q->GetIntersections( z, L, f2 ); MCAD_POINT* l = NULL; int n = 0; bool i1 = d->GetIntersections( &z, l, n, f1 );
    TN( i1 == i2, f1, f2 ); TN( true, i1 ? n : 0, i2 ? L.size() : 0 ); if( i1 && i2 ) { int i = 0; for( auto& y : L ) { if( i < n ) TP( true, l[i], y ); ++i; } }
    if( l ) delete [] l;
    DLL_MCAD_SEGMENT dz( false ); dz.Attach( &z ); l = NULL; n = 0; i1 = d->GetIntersections( dz, l, n, f1 ); TN( i1 == i2, i1 ? n : 0, i2 ? L.size() : 0 ); dz.Detach(); if( l ) delete [] l;
    return T;
}
static Two oval( DLL_MCAD_OUTLINE* d )
{
    Two T; MCAD_OUTLINE* q = d->m_outline; bool b = false; TN( d->IsClosed( b ), b, q->IsClosed() ); TN( d->IsContiguous( b ), b, q->IsContiguous() ); int n = 0;
    { MCAD_SEGMENT** l = NULL; bool r = d->GetSegments( l, n ); auto* g = q->GetSegments(); TN( r == !g->empty(), n, g->size() ); int i = 0; for( auto y : *g ) { if( i < n ) TN( true, oidS( l[i] ), oidS( y ) ); ++i; } delete [] l; }
    { MCAD_OUTLINE** l = NULL; bool r = d->GetCutouts( l, n ); auto* g = q->GetCutouts(); TN( r == !g->empty(), n, g->size() ); int i = 0; for( auto y : *g ) { if( i < n ) TN( true, oidO( l[i] ), oidO( y ) ); ++i; } delete [] l; }
    { MCAD_SEGMENT** l = NULL; bool r = d->GetDrillHoles( l, n ); auto* g = q->GetDrillHoles(); TN( r == !g->empty(), n, g->size() ); int i = 0; for( auto y : *g ) { if( i < n ) TN( true, oidS( l[i] ), oidS( y ) ); ++i; } delete [] l; }
    { char const** l = NULL; bool r = d->GetErrors( l, n ); auto* g = q->GetErrors(); TN( r == !g->empty(), n, g->size() ); int i = 0; for( auto& y : *g ) { if( i < n ) TZ( true, l[i], "" ), T.c.back() = T.g.back(), TN( true, strcmp( l[i], y.c_str() ), 0 ); ++i; } delete [] l; }
    bool e1 = false, e2 = false; MCAD_POINT p( 5, 5, 0 ); TN( true, d->IsInside( p, e1 ), q->IsInside( p, e2 ) ); TN( true, e1, e2 );
    d->ClearErrors(); TN( true, q->GetErrors()->size(), 0 );
    return T;
}
static string ent( IGES_ENTITY* e ) { string s = to_string( e->GetEntityType() ); for( double x : vals( e ) ) s += " " + to_string( (long)lround( x * 1e6 ) ); return "\"" + s + "\""; }
static Two pval( DLL_IGES_GEOM_PCB* d )
{
    Two T; IGES_GEOM_PCB* q = (IGES_GEOM_PCB*)d->m_outline; IGES m1, m2; bool e1 = false, e2 = false;
    MCAD_SEGMENT z; z.SetParams( MCAD_POINT( 1, 1, 0 ), MCAD_POINT( 4, 5, 0 ) ); MCAD_SEGMENT y; y.SetParams( MCAD_POINT( 5, 5, 0 ), MCAD_POINT( 7, 5, 0 ), MCAD_POINT( 7, 5, 0 ), false );
    for( MCAD_SEGMENT* s : { &z, &y } )
    {
        { IGES_CURVE** l = NULL; int n = 0; list<IGES_CURVE*> L; bool r = d->GetCurves( &m1, l, n, 1.5, s ), r2 = q->GetCurves( &m2, L, 1.5, s ); TN( r == r2, n, L.size() ); int i = 0; for( auto x : L ) { if( i < n ) { TN( true, m1.verifEntities().size() > 0 && find( m1.verifEntities().begin(), m1.verifEntities().end(), (IGES_ENTITY*)l[i] ) != m1.verifEntities().end(), 1 ); if( T.g.back() == T.c.back() ) TS( true, ent( l[i] ), ent( x ) ); } ++i; } delete [] l; }
        { IGES_ENTITY_126** l = NULL; int n = 0; list<IGES_ENTITY_126*> L; bool r = d->GetCurveOnPlane( &m1, l, n, -1, 11, -1, 11, 1.5, s, false ), r2 = q->GetCurveOnPlane( &m2, L, -1, 11, -1, 11, 1.5, s, false ); TN( r == r2, n, L.size() ); int i = 0; for( auto x : L ) { if( i < n ) { TN( true, find( m1.verifEntities().begin(), m1.verifEntities().end(), (IGES_ENTITY*)l[i] ) != m1.verifEntities().end(), 1 ); if( T.g.back() == T.c.back() ) TS( true, ent( l[i] ), ent( x ) ); } ++i; } delete [] l; }
        { IGES_ENTITY_144** l = NULL; int n = 0; vector<IGES_ENTITY_144*> L; bool r = d->GetSegmentWall( &m1, l, n, 2, 1, s, false ), r2 = q->GetSegmentWall( &m2, L, 2, 1, s, false ); TN( r == r2, n, L.size() ); int i = 0; for( auto x : L ) { if( i < n ) TS( true, ent( l[i]->PTS ), ent( x->PTS ) ); ++i; } delete [] l; }
    }
    if( q->IsClosed() )
    {
        { IGES_ENTITY_144** l = NULL; int n = 0; vector<IGES_ENTITY_144*> L; bool r = d->GetVerticalSurface( &m1, e1, l, n, 2, 1 ), r2 = q->GetVerticalSurface( &m2, e2, L, 2, 1 ); TN( r == r2, n, L.size() ); int i = 0; for( auto x : L ) { if( i < n ) TS( true, ent( l[i]->PTS ), ent( x->PTS ) ); ++i; } delete [] l; }
        { IGES_ENTITY_144** l = NULL; int n = 0; vector<IGES_ENTITY_144*> L; bool r = d->GetTrimmedPlane( &m1, e1, l, n, 2, false ), r2 = q->GetTrimmedPlane( &m2, e2, L, 2, false ); TN( r == r2, n, L.size() ); int i = 0; for( auto x : L ) { if( i < n ) TS( true, ent( l[i]->PTS ), ent( x->PTS ) ); ++i; } delete [] l; }
    }
    return T;
}
// calls on an invalid handle: how many succeeded
static long hvoid( int h, IGES_ENTITY* x )
{
    HS& y = H[h]; long n = 0; int a = 0; size_t z = 0; bool b = false; double f = 0; const char* s = "x"; char const** sl = NULL; MCAD_POINT p; IGES_ENTITY** el = NULL; IGES_ENTITY* ep = NULL;
    if( y.k == "ent" )
    {
        DLL_IGES_ENTITY* d = y.e; IGES* m = NULL; IGES_LINEFONT_PATTERN lf; IGES_COLOR col; IGES_STAT_DEPENDS sd; IGES_STAT_USE su; IGES_STAT_HIER sh;
        n += d->GetNOptionalEntities( a ); n += d->GetOptionalEntities( z, el ); n += d->AddOptionalEntity( x ); n += d->AddOptionalEntity( *d ); n += d->DelOptionalEntity( x ); n += d->DelOptionalEntity( *d );
        n += d->GetNComments( a ); n += d->GetComments( z, sl ); n += d->AddComment( s ); n += d->DelComment( 0 ); n += d->ClearComments(); n += d->SetParentIGES( MD[1] ); n += d->GetParentIGES( m );
        n += d->GetEntityType( a ); n += d->GetEntityForm( a ); n += d->SetEntityForm( 0 ); n += d->SetStructure( x ); n += d->GetStructure( ep ); n += d->SetLineFontPattern( LINEFONT_SOLID ); n += d->SetLineFontPattern( x ); n += d->GetLineFontPattern( lf ); n += d->GetLineFontPatternEntity( ep );
        n += d->SetLevel( 1 ); n += d->SetLevel( x ); n += d->GetLevel( a ); n += d->GetLevelEntity( ep ); n += d->SetView( x ); n += d->GetView( ep ); n += d->SetTransform( x ); n += d->SetTransform( *d ); n += d->GetTransform( ep ); n += d->SetLabelAssoc( x ); n += d->GetLabelAssoc( ep );
        n += d->SetColor( COLOR_RED ); n += d->SetColor( x ); n += d->GetColor( col ); n += d->GetColorEntity( ep ); n += d->SetLineWeightNum( 1 ); n += d->GetLineWeightNum( a ); n += d->SetLabel( "a" ); n += d->GetLabel( s ); n += d->SetEntitySubscript( 1 ); n += d->GetEntitySubscript( a );
        n += d->SetVisibility( true ); n += d->GetVisibility( b ); n += d->SetDependency( STAT_INDEPENDENT ); n += d->GetDependency( sd ); n += d->SetEntityUse( STAT_USE_GEOMETRY ); n += d->GetEntityUse( su ); n += d->SetHierarchy( STAT_HIER_ALL_SUB ); n += d->GetHierarchy( sh );
        n += d->GetRawPtr() != NULL; n += d->IsValid();
        IGES_CURVE* cv = as<IGES_CURVE>( x ); IGES_CURVE* cp = NULL;
        if( DLL_IGES_CURVE* c = dynamic_cast<DLL_IGES_CURVE*>( d ) ) { n += c->IsClosed(); n += c->GetNCurves() > 0; n += c->GetNSegments() > 0; n += c->GetCurve( 0 ) != NULL; n += c->GetStartPoint( p ); n += c->GetEndPoint( p ); }
        switch( y.t )
        {
            case 100: { auto q = (DLL_IGES_ENTITY_100*)d; n += q->GetCircleCenter( f, f, f ); n += q->GetCircleCenter( p ); n += q->GetCircleStart( f, f, f ); n += q->GetCircleStart( p ); n += q->GetCircleEnd( f, f, f ); n += q->GetCircleEnd( p ); n += q->SetCircleCenter( 1, 1, 1 ); n += q->SetCircleCenter( p ); n += q->SetCircleStart( 1, 1 ); n += q->SetCircleStart( p ); n += q->SetCircleEnd( 1, 1 ); n += q->SetCircleEnd( p ); } break;
            case 102: { auto q = (DLL_IGES_ENTITY_102*)d; n += q->AddSegment( cv ); n += q->AddSegment( *q ); } break;
            case 104: { auto q = (DLL_IGES_ENTITY_104*)d; n += q->GetConicStart( p ); n += q->GetConicStart( f, f, f ); n += q->GetConicEnd( p ); n += q->GetConicEnd( f, f, f ); n += q->GetConicParams( f, f, f, f, f, f ); n += q->SetConicStart( p ); n += q->SetConicStart( 1, 1, 1 ); n += q->SetConicEnd( p ); n += q->SetConicEnd( 1, 1 ); n += q->SetConicParams( 1, 1, 1, 1, 1, 1 ); } break;
            case 110: { auto q = (DLL_IGES_ENTITY_110*)d; n += q->GetLineStart( p ); n += q->GetLineStart( f, f, f ); n += q->GetLineEnd( p ); n += q->GetLineEnd( f, f, f ); n += q->SetLineStart( p ); n += q->SetLineStart( 1, 1, 1 ); n += q->SetLineEnd( p ); n += q->SetLineEnd( 1, 1, 1 ); } break;
            case 120: { auto q = (DLL_IGES_ENTITY_120*)d; n += q->GetAxis( &cp ); n += q->SetAxis( cv ); n += q->GetGeneratrix( &cp ); n += q->SetGeneratrix( cv ); n += q->GetAngles( f, f ); n += q->SetAngles( 0, 1 ); } break;
            case 122: { auto q = (DLL_IGES_ENTITY_122*)d; n += q->GetGeneratrixEnd( p ); n += q->GetGeneratrixEnd( f, f, f ); n += q->GetDirectrix( cp ); n += q->SetGeneratrixEnd( p ); n += q->SetGeneratrixEnd( 1, 1, 1 ); n += q->SetDirectrix( cv ); } break;
            case 124: { auto q = (DLL_IGES_ENTITY_124*)d; MCAD_TRANSFORM t; n += q->GetOverallTransform( t ); n += q->GetRootTransform( t ); n += q->SetRootTransform( &t ); n += q->SetRootTransform( t ); } break;
            case 126: { auto q = (DLL_IGES_ENTITY_126*)d; double *k = NULL, *c = NULL; double kn[4] = { 0, 0, 1, 1 }, co[6] = { 0, 0, 0, 1, 0, 0 }; n += q->GetNURBSData( a, a, &k, &c, b, b, b, f, f ); n += q->SetNURBSData( 2, 2, kn, co, false, 0, 1 ); n += q->IsPlanar( b ); n += q->IsRational( b ); n += q->isPeriodic( b ); n += q->GetNormal( p ); } break;
            case 128: { auto q = (DLL_IGES_ENTITY_128*)d; double *k = NULL, *k2 = NULL, *c = NULL; double kn[4] = { 0, 0, 1, 1 }, co[12] = { 0,0,0, 1,0,0, 0,1,0, 1,1,0 }; n += q->GetNURBSData( a, a, a, a, &k, &k2, &c, b, b, b, b, b, f, f, f, f ); n += q->SetNURBSData( 2, 2, 2, 2, kn, kn, co, false, false, false, 0, 1, 0, 1 ); n += q->IsRational( b ); n += q->isClosed1( b ); n += q->isClosed2( b ); n += q->isPeriodic1( b ); n += q->isPeriodic2( b ); } break;
            case 142: { auto q = (DLL_IGES_ENTITY_142*)d; BOUND_CURVE_PREF bp; CURVE_CREATION cc; n += q->GetSurface( &ep ); n += q->SetSurface( x ); n += q->GetParameterSpaceBound( &ep ); n += q->SetParameterSpaceBound( x ); n += q->GetModelSpaceBound( &ep ); n += q->SetModelSpaceBound( x ); n += q->GetCurvePreference( bp ); n += q->SetCurvePreference( (BOUND_CURVE_PREF)1 ); n += q->GetCurveCreationFlag( cc ); n += q->SetCurveCreationFlag( (CURVE_CREATION)1 ); } break;
            case 144: { auto q = (DLL_IGES_ENTITY_144*)d; IGES_ENTITY_142* t = NULL; IGES_ENTITY_142** tl = NULL; auto tx = as<IGES_ENTITY_142>( x ); n += q->GetSurface( ep ); n += q->SetSurface( x ); n += q->GetBoundCurve( t ); n += q->SetBoundCurve( tx ); n += q->GetNCutouts( a ); n += q->GetCutouts( z, tl ); n += q->AddCutout( tx ); n += q->DelCutout( tx ); } break;
            case 308: { auto q = (DLL_IGES_ENTITY_308*)d; DLL_IGES_ENTITY* self = d; n += q->GetNumDE( z ); n += q->GetDEList( z, el ); n += q->AddDE( x ); n += q->AddDE( self ); n += q->DelDE( x ); n += q->DelDE( self ); n += q->GetNestDepth( a ); n += q->GetName( s ); n += q->SetName( "a" ); } break;
            case 314: { auto q = (DLL_IGES_ENTITY_314*)d; n += q->GetColor( f, f, f ); n += q->SetColor( 1, 1, 1 ); n += q->GetName( s ); n += q->SetName( "a" ); } break;
            case 406: { auto q = (DLL_IGES_ENTITY_406*)d; n += q->GetProperty_Name() != NULL; n += q->SetProperty_Name( "a" ); } break;
            case 408: { auto q = (DLL_IGES_ENTITY_408*)d; IGES_ENTITY_308* t = NULL; auto tx = as<IGES_ENTITY_308>( x ); n += q->GetSubfigure( t ); n += q->SetSubfigure( tx ); n += q->GetSubfigParams( f, f, f, f ); n += q->SetSubfigParams( 1, 1, 1 ); n += q->GetDE( t ); n += q->SetDE( tx ); } break;
        }
    }
    else if( y.k == "model" )
    {
        DLL_IGES* d = y.m; IGES_UNIT u; IGES_DRAFTING_STANDARD ds; IGES_ENTITY_308* t = NULL; DLL_IGES_ENTITY* de = NULL; string f1 = WD + "/inv.igs";
        d->Compact(); d->Cull(); n += d->Clear(); n += d->Read( f1.c_str() ); n += d->Write( f1.c_str(), true ); n += 0 == unlink( f1.c_str() ); n += d->Export( MD[1], &t ); n += d->GetNewPartName() != NULL; n += d->GetNewAssemblyName( NULL ) != NULL;
        n += d->NewAPIEntity( (IGES_ENTITY_TYPE)110, de ); n += d->NewIGESEntity( (IGES_ENTITY_TYPE)110, &ep ); n += d->AddEntity( x ); n += d->DelEntity( x ); n += d->UnlinkEntity( x ); n += d->ConvertUnits( UNIT_INCH ); n += d->ChangeModelScale( 2 );
        n += d->GetHeaders( z, sl ); n += d->GetNHeaderLines() > 0; n += d->AddToHeader( s ); n += d->GetProductID_SendingSystem( s ); n += d->SetProductID_SendingSystem( "a" ); n += d->GetNativeSystemID( s ); n += d->SetNativeSystemID( "a" ); n += d->GetPreprocessorVersion( s );
        n += d->GetProductID_ReceivingSystem( s ); n += d->SetProductID_ReceivingSystem( "a" ); n += d->GetUnitsFlag( u ); n += d->SetUnitsFlag( UNIT_INCH ); n += d->GetUnitsName( s ); n += d->GetMaxLineWidthGrad( a ); n += d->SetMaxLineWidthGrad( 4 ); n += d->GetMaxLineWidth( f ); n += d->SetMaxLineWidth( 1 );
        n += d->GetCreationDate( s ); n += d->GetMinResolution( f ); n += d->SetMinResolution( 1 ); n += d->GetAuthor( s ); n += d->SetAuthor( "a" ); n += d->GetOrganization( s ); n += d->SetOrganization( "a" ); n += d->GetIGESVersionFlag( a ); n += d->GetDraftingStandard( ds ); n += d->SetDraftingStandard( DRAFT_NONE ); n += d->GetModificationDate( s ); n += d->GetApplicationNote( s ); n += d->SetApplicationNote( "a" );
        n += d->GetRawPtr() != NULL;
    }
    else if( y.k == "seg" )
    {
        DLL_MCAD_SEGMENT* d = y.s; MCAD_SEGTYPE t; MCAD_POINT q; MCAD_POINT* l = NULL; MCAD_INTERSECT_FLAG fl; MCAD_SEGMENT g; g.SetParams( MCAD_POINT( 0, 0, 0 ), MCAD_POINT( 1, 0, 0 ) );
        n += d->GetSegType( t ); n += d->GetRadius( f ); n += d->GetStartAngle( f ); n += d->GetEndAngle( f ); n += d->GetFirstAngle( f ); n += d->GetLastAngle( f ); n += d->GetCenter( p ); n += d->GetStart( p ); n += d->GetEnd( p ); n += d->GetFirstPoint( p ); n += d->GetLastPoint( p );
        n += d->GetLength( f ); n += d->IsCW( b ); n += d->GetIntersections( &g, l, a, fl ); n += d->GetIntersections( *d, l, a, fl ); n += d->GetBoundingBox( p, q ); n += d->GetMidpoint( p ); MCAD_POINT mid( .5, 0, 0 ); MCAD_POINT* mp[1] = { &mid }; MCAD_SEGMENT** sl2 = NULL; (void)mp; (void)sl2;
        n += d->GetRawPtr() != NULL; n += d->IsValid(); d->DelSegment();
    }
    else if( y.k == "out" )
    {
        DLL_MCAD_OUTLINE* d = y.o; bool err = false; MCAD_SEGMENT** l = NULL; MCAD_OUTLINE** ol = NULL; MCAD_SEGMENT* g = new MCAD_SEGMENT; g->SetParams( MCAD_POINT( 0, 0, 0 ), MCAD_POINT( 1, 0, 0 ) ); MCAD_SEGMENT* ci = new MCAD_SEGMENT; ci->SetParams( MCAD_POINT( 0, 0, 0 ), MCAD_POINT( 1, 0, 0 ), MCAD_POINT( 1, 0, 0 ), false ); MCAD_OUTLINE* o2 = new MCAD_OUTLINE;
        n += d->GetSegments( l, a ); n += d->GetCutouts( ol, a ); n += d->GetDrillHoles( l, a ); n += d->GetErrors( sl, a ); d->ClearErrors(); n += d->IsClosed( b ); n += d->IsContiguous( b ); n += d->IsInside( p, err );
        n += d->AddSegment( g, err ); n += d->AddOutline( o2, err ); n += d->AddOutline( ci, err ); n += d->SubOutline( o2, err ); n += d->SubOutline( ci, err ); n += d->AddCutout( o2, false, err ); n += d->AddCutout( ci, false, err );
        if( auto q = dynamic_cast<DLL_IGES_GEOM_PCB*>( d ) )
        {
            IGES m; IGES_ENTITY_144** sf = NULL; int k = 0; IGES_CURVE** cl = NULL; IGES_ENTITY_126** nl = NULL;
            n += q->GetVerticalSurface( &m, err, sf, k, 1, 0 ); n += q->GetTrimmedPlane( &m, err, sf, k, 1, false ); n += q->GetCurves( &m, cl, k, 1, g ); n += q->GetCurveOnPlane( &m, nl, k, -1, 2, -1, 2, 1, g, false ); n += q->GetSegmentWall( &m, sf, k, 1, 0, g, false ); n += m.verifEntities().size();
        }
        n += d->GetRawPtr() != NULL; n += d->IsValid(); d->DelOutline(); delete g; delete ci; delete o2;
    }
    return n;
}
static bool hook( const vector<string>& w, long& r, string& extra )
{
    const string& c = w[0];
    auto A = [&]( size_t i ) { return i < w.size() ? atoi( w[i].c_str() ) : 0; };
    auto PE = [&]( size_t i ) -> IGES_ENTITY* { int k = A( i ); return k > 0 && E[k].alive ? E[k].p : NULL; };
    int h = A(1);
    if( c.size() < 2 || h < 0 || h > NOO ) return false;
    HS& x = H[h <= NHH ? h : 0];
    auto two = [&]( const Two& T ) { r = T.ok; extra = ",\"g\":" + pr( T.g ) + ",\"c\":" + pr( T.c ); };
    auto none = [&]() { r = 0; extra = ",\"g\":[],\"c\":[]"; };
    r = 1;
    // what an outline owns is not destroyed behind its back (the program's responsibility): the handle only lets go
    if( c == "sZ" || c == "oZ" || ( ( c == "hK" || c == "sN" || c == "oN" || c == "sX" || c == "oX" ) && ( x.k == "seg" || x.k == "out" ) ) )
    {
        MCAD_SEGMENT* s = NULL; MCAD_OUTLINE* o = NULL;
        if( c[1] == 'Z' ) { if( OB[h].alive ) { s = OB[h].s; o = OB[h].o; } } else if( x.k == "seg" ) { if( x.s->m_valid ) s = x.s->m_segment; } else if( x.o->m_valid ) o = x.o->m_outline;
        bool own = false;
        for( int i = 1; i <= NOO; ++i ) if( OB[i].alive && OB[i].o )
        {
            for( auto z : *OB[i].o->GetCutouts() ) own |= z == o;
            for( auto z : *OB[i].o->GetSegments() ) own |= z == s;
            for( auto z : *OB[i].o->GetDrillHoles() ) own |= z == s;
        }
        if( own ) { r = -9; if( c == "hK" ) { if( s ) x.s->Detach(); else x.o->Detach(); dropH( h ); } return true; }
    }
    if( c == "hE" ) { x.k = "ent"; x.t = A(2); x.e = A(6) ? mkE( A(2), NULL, H[A(6)].m, true, A(4) ) : mkE( A(2), A(3) ? MD[A(3)] : NULL, NULL, false, A(4) ); if( A(4) ) freshE( h, A(5) ); }
    else if( c == "hN" ) { r = x.e->NewEntity(); freshE( h, A(2) ); }
    else if( c == "hA" ) r = x.e->Attach( PE(2) );
    else if( c == "hD" ) { IGES_ENTITY* p = x.e->Detach(); r = idOf( p ); }
    else if( c == "hX" ) x.e->DelEntity();
    else if( c == "hK" ) dropH( h );
    else if( c == "hP" ) r = A(3) ? x.e->SetAPIParentIGES( *H[A(3)].m ) : x.e->SetAPIParentIGES( A(2) ? MD[A(2)] : NULL );
    else if( c == "hS" ) r = hset( h, A(2), PE(3), A(4) );
    else if( c == "hC" ) r = happ( h, PE(2), A(3), false );
    else if( c == "hR" ) r = happ( h, PE(2), A(3), true );
    else if( c == "hO" ) r = A(3) ? x.e->AddOptionalEntity( *H[A(3)].e ) : x.e->AddOptionalEntity( PE(2) );
    else if( c == "hQ" ) r = A(3) ? x.e->DelOptionalEntity( *H[A(3)].e ) : x.e->DelOptionalEntity( PE(2) );
    else if( c == "hT" ) r = hat( h, A(2), A(3) );
    else if( c == "hV" ) { bool v = x.k == "ent" ? x.e->m_valid : x.k == "model" ? x.m->m_valid : x.k == "seg" ? x.s->m_valid : x.o->m_valid; r = v ? -1 : hvoid( h, PE(2) ); }
    else if( c == "hG" ) { if( x.k == "ent" ) { if( x.e->m_valid ) two( hget( h ) ); else none(); } else if( x.k == "seg" ) { if( x.s->m_valid ) two( sval( x.s ) ); else none(); } else if( x.k == "out" ) { if( x.o->m_valid ) two( oval( x.o ) ); else none(); } else if( x.m->m_valid ) two( mval( x.m, A(2) ) ); else none(); }
    else if( c == "hW" ) { if( x.k == "ent" ) { if( x.e->m_valid ) two( hval( h, A(2) ) ); else none(); } else if( auto q = dynamic_cast<DLL_IGES_GEOM_PCB*>( x.o ) ) { if( q->m_valid ) two( pval( q ) ); else none(); } else none(); }
    else if( c == "mM" ) { x.k = "model"; x.m = new DLL_IGES; MD[A(2)] = x.m->GetRawPtr(); MD[A(2)]->globalData.maxLinewidthGrad = 4; }
    else if( c == "mAdd" ) r = A(3) ? x.m->AddEntity( H[A(3)].e ) : x.m->AddEntity( PE(2) );
    else if( c == "mDel" ) r = A(3) ? x.m->DelEntity( H[A(3)].e ) : x.m->DelEntity( PE(2) );
    else if( c == "mUnl" ) r = A(3) ? x.m->UnlinkEntity( H[A(3)].e ) : x.m->UnlinkEntity( PE(2) );
    else if( c == "mClr" ) { r = x.m->Clear(); if( r ) x.m->m_iges->globalData.maxLinewidthGrad = 4; }
    else if( c == "mCull" ) { r = x.m->m_valid; x.m->Cull( A(2) != 0 ); }
    else if( c == "mApi" ) { HS& y = H[A(3)]; bool v = x.m->m_valid; r = x.m->NewAPIEntity( (IGES_ENTITY_TYPE)A(2), y.e ); if( r ) { y.k = "ent"; y.t = A(2); freshE( A(3), A(4) ); } else if( v ) y = HS(); }
    else if( c == "mIge" ) { IGES_ENTITY* p = NULL; r = x.m->NewIGESEntity( (IGES_ENTITY_TYPE)A(2), &p ); if( p ) { reg( A(3), p ); defaults( p, 0, 1 ); } }
    else if( c == "mExp" ) { IGES_ENTITY_308* p = NULL; r = x.m->Export( H[A(2)].m, &p ); if( p ) reg( A(3), p ); }
    else if( c == "sC" ) { x.k = "seg"; x.s = new DLL_MCAD_SEGMENT( false ); }
    else if( c == "oC" ) { x.k = "out"; x.o = A(2) == 5 ? new DLL_IGES_GEOM_PCB( false ) : new DLL_MCAD_OUTLINE( false ); }
    else if( c == "sN" ) { r = x.s->NewSegment(); if( x.s->m_valid ) regS( A(2), x.s->m_segment ); }
    else if( c == "oN" ) { r = x.o->NewOutline(); if( x.o->m_valid ) regO( A(2), x.o->m_outline ); }
    else if( c == "sA" ) r = x.s->Attach( A(2) && OB[A(2)].alive ? OB[A(2)].s : NULL );
    else if( c == "oA" ) r = x.o->Attach( A(2) && OB[A(2)].alive ? OB[A(2)].o : NULL );
    else if( c == "sD" ) x.s->Detach();
    else if( c == "oD" ) x.o->Detach();
    else if( c == "sX" ) x.s->DelSegment();
    else if( c == "oX" ) x.o->DelOutline();
    else if( c == "sR" ) regS( A(1), new MCAD_SEGMENT );
    else if( c == "oR" ) regO( A(1), A(2) == 5 ? new IGES_GEOM_PCB : new MCAD_OUTLINE );
    else if( c == "sZ" ) { if( OB[A(1)].alive ) delete OB[A(1)].s; }
    else if( c == "oZ" ) { if( OB[A(1)].alive ) delete OB[A(1)].o; }
    else if( c == "sP" )
    {
        int q = A(2) / 4, s = A(2) % 4; bool was = x.s->m_valid;
        if( A(2) < 100 )
        {
            static const double X[] = { 0, 5, 2, 20 }, Z[] = { 10, 10, 2, 5 }; double x0 = X[q], l = Z[q];
            static const int dx[] = { 0, 1, 1, 0, 0 }, dy[] = { 0, 0, 1, 1, 0 };
            r = x.s->SetParams( MCAD_POINT( x0 + l * dx[s], x0 + l * dy[s], 0 ), MCAD_POINT( x0 + l * dx[s + 1], x0 + l * dy[s + 1], 0 ) );
        }
        else { static const double C[][3] = { { 5, 5, 1 }, { 10, 5, 2 }, { 30, 30, 1 } }; const double* z = C[A(2) - 100]; MCAD_POINT p( z[0] + z[2], z[1], 0 ); r = x.s->SetParams( MCAD_POINT( z[0], z[1], 0 ), p, p, false ); }
        if( !was && x.s->m_valid ) regS( A(3), x.s->m_segment );
    }
    else if( c == "oS" || c == "oU" || c == "oT" || c == "oG" )
    {
        bool err = false; int hx = A(2), i = A(3); if( i && !OB[i].alive ) { r = 0; return true; } MCAD_SEGMENT* s = i ? OB[i].s : NULL; MCAD_OUTLINE* o = i ? OB[i].o : NULL; bool viaS = hx && !i && H[hx].k == "seg", viaO = hx && !i && H[hx].k == "out"; vector<int> own; int gone = i;
        if( viaS && H[hx].s->m_valid ) gone = oidS( H[hx].s->m_segment );
        if( viaO && H[hx].o->m_valid ) gone = oidO( H[hx].o->m_outline );
        if( c == "oG" && x.o->m_valid ) { for( auto z : *x.o->m_outline->GetSegments() ) own.push_back( oidS( z ) ); if( gone > 0 && OB[gone].o ) for( auto z : *OB[gone].o->GetSegments() ) own.push_back( oidS( z ) ); own.push_back( gone ); }
        bool sub = A(4) == 1;
        if( c == "oS" ) r = viaS ? x.o->AddSegment( *H[hx].s, err ) : x.o->AddSegment( s, err );
        else if( c == "oU" ) r = viaO ? x.o->AddCutout( *H[hx].o, false, err ) : x.o->AddCutout( o, false, err );
        else if( c == "oT" ) r = viaS ? x.o->AddCutout( *H[hx].s, false, err ) : x.o->AddCutout( s, false, err );
        else if( viaS ) r = sub ? x.o->SubOutline( *H[hx].s, err ) : x.o->AddOutline( *H[hx].s, err );
        else if( viaO ) r = sub ? x.o->SubOutline( *H[hx].o, err ) : x.o->AddOutline( *H[hx].o, err );
        else if( s ) r = sub ? x.o->SubOutline( s, err ) : x.o->AddOutline( s, err );
        else r = sub ? x.o->SubOutline( o, err ) : x.o->AddOutline( o, err );
        if( r ) for( int z : own ) if( z > 0 ) forget( z );
        x.o->ClearErrors();
    }
    else return false;
    return true;
}
