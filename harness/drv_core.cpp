// Core-API driver: executes line scripts against the real library and emits one
// JSON line per operation with the result and the full observable entity graph.
// Compiled with -fno-access-control (the entity vector and the reference lists
// have no public enumeration).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <iges.h>
#include <iges_io.h>
#include <all_entities.h>
#include <mcad_utils.h>
using namespace std;

static FILE* OUT;
static string WD = "."; static bool WOOK = false;
static const int MAXE = 256, MAXM = 5;
struct Slot { IGES_ENTITY* p; bool alive; };
static Slot E[MAXE];
static IGES* MD[MAXM];
static int NE = 0;     // number of ids reported
static int NM = 2;

static int idOf( IGES_ENTITY* p )
{
    if( !p ) return 0;
    for( int i = 1; i < MAXE; ++i ) if( E[i].alive && E[i].p == p ) return i;
    return -1;
}
static int midOf( IGES* m )
{
    if( !m ) return 0;
    for( int i = 1; i < MAXM; ++i ) if( MD[i] == m ) return i;
    return -1;
}
static void reg( int id, IGES_ENTITY* p )
{
    E[id].p = p; E[id].alive = false;
    p->AttachValidFlag( &E[id].alive );
    if( id > NE ) NE = id;
}
template<class T> static T* as( IGES_ENTITY* p ) { return dynamic_cast<T*>( p ); }

static string jarr( const vector<long>& v )
{
    string s = "[";
    for( size_t i = 0; i < v.size(); ++i ) { if( i ) s += ","; s += to_string( v[i] ); }
    return s + "]";
}
static long R3( double d ) { return lround( d * 1000.0 ); }

static string obsE( int id, bool full )
{
    if( !E[id].alive ) return "{\"k\":0}";
    IGES_ENTITY* e = E[id].p;
    int k = e->GetEntityType();
    string s = "{\"k\":" + to_string( k ) + ",\"o\":" + to_string( midOf( e->GetParentIGES() ) );
    vector<long> v;
    for( auto r : e->verifRefs() ) v.push_back( idOf( r ) );
    if( v.size() != e->getNRefs() ) v.push_back( -99 );
    IGES_ENTITY* fp = e->getFirstParentRef();
    if( idOf( fp ) != ( v.empty() ? 0 : v[0] ) ) v.push_back( -98 );
    s += ",\"r\":" + jarr( v );
    IGES_ENTITY* t = NULL;
    e->GetTransform( &t ); s += ",\"x\":" + to_string( idOf( t ) );
    t = NULL; e->GetColorEntity( &t ); s += ",\"c\":" + to_string( idOf( t ) );
    v.clear();
    int nx = e->GetNOptionalEntities();
    for( int i = 0; i < nx; ++i ) v.push_back( idOf( e->GetOptionalEntity( i ) ) );
    size_t sz = 0; IGES_ENTITY** lp = NULL;
    if( e->GetOptionalEntities( sz, lp ) != ( nx > 0 ) || sz != (size_t)nx ) v.push_back( -97 );
    else for( size_t i = 0; i < sz; ++i ) if( idOf( lp[i] ) != v[i] ) v.push_back( -96 );
    s += ",\"e\":" + jarr( v );
    vector<long> sl( 3, 0 ), ls, z;
    switch( k )
    {
        case 102: { auto p = as<IGES_ENTITY_102>( e );
            int n = p->GetNCurves(); if( n != p->GetNSegments() ) ls.push_back( -95 );
            for( int i = 0; i < n; ++i ) ls.push_back( idOf( p->GetCurve( i ) ) ); } break;
        case 120: { auto p = as<IGES_ENTITY_120>( e ); IGES_CURVE* c = NULL;
            p->GetL( &c ); sl[0] = idOf( c ); c = NULL; p->GetC( &c ); sl[1] = idOf( c ); } break;
        case 122: { auto p = as<IGES_ENTITY_122>( e ); IGES_CURVE* c = NULL; p->GetDE( c ); sl[0] = idOf( c ); } break;
        case 142: { auto p = as<IGES_ENTITY_142>( e ); IGES_ENTITY* c = NULL;
            p->GetSPTR( &c ); sl[0] = idOf( c ); c = NULL; p->GetBPTR( &c ); sl[1] = idOf( c );
            c = NULL; p->GetCPTR( &c ); sl[2] = idOf( c ); } break;
        case 144: { auto p = as<IGES_ENTITY_144>( e ); IGES_ENTITY* c = NULL;
            p->GetPTS( c ); sl[0] = idOf( c ); IGES_ENTITY_142* d = NULL; p->GetPTO( d ); sl[1] = idOf( d );
            int n = p->GetNPTI();
            for( int i = 0; i < n; ++i ) ls.push_back( idOf( p->GetPTI( i ) ) );
            size_t q = 0; IGES_ENTITY_142** qp = NULL;
            if( p->GetPTIList( q, qp ) != ( n > 0 ) || q != (size_t)n ) ls.push_back( -97 );
            else for( size_t i = 0; i < q; ++i ) if( idOf( qp[i] ) != ls[i] ) ls.push_back( -96 );
            } break;
        case 164: { auto p = as<IGES_ENTITY_164>( e ); IGES_CURVE* c = NULL; p->GetClosedCurve( &c ); sl[0] = idOf( c ); } break;
        case 180: { auto p = as<IGES_ENTITY_180>( e ); int n = p->GetNNodes();
            for( int i = 0; i < n; ++i ) { BTREE_NODE* b = p->GetNode( i ); ls.push_back( b->op ? -b->val : idOf( b->pEnt ) ); } } break;
        case 308: { auto p = as<IGES_ENTITY_308>( e ); size_t q = 0; IGES_ENTITY** qp = NULL;
            bool r = p->GetDEList( q, qp );
            for( size_t i = 0; i < q; ++i ) ls.push_back( idOf( qp[i] ) );
            if( r != ( q > 0 ) ) ls.push_back( -97 ); } break;
        case 408: { auto p = as<IGES_ENTITY_408>( e ); IGES_ENTITY_308* c = NULL; p->GetDE( c ); sl[0] = idOf( c ); } break;
        default: break;
    }
    s += ",\"s\":" + jarr( sl ) + ",\"l\":" + jarr( ls );
    if( full )
    {
        IGES_STAT_DEPENDS dp; IGES_STAT_USE us; IGES_STAT_HIER hi; bool vi; IGES_COLOR co; int lv, lw, sb;
        IGES_LINEFONT_PATTERN lf;
        e->GetDependency( dp ); e->GetEntityUse( us ); e->GetHierarchy( hi ); e->GetVisibility( vi );
        vector<long> a;
        a.push_back( dp ); a.push_back( us ); a.push_back( hi ); a.push_back( vi );
        a.push_back( e->GetColor( co ) ? co : -1 );
        a.push_back( e->GetLevel( lv ) ? lv : -1 );
        e->GetLineWeightNum( lw ); e->GetEntitySubscript( sb );
        a.push_back( lw ); a.push_back( sb );
        a.push_back( e->GetLineFontPattern( lf ) ? lf : -1 );
        a.push_back( e->GetEntityForm() );
        s += ",\"a\":" + jarr( a );
        IGES_CURVE* cv = as<IGES_CURVE>( e );
        if( cv )
        {
            z.push_back( cv->IsClosed() );
            MCAD_POINT p;
            for( int i = 0; i < 4; ++i )
                if( i & 1 ? cv->GetEndPoint( p, i < 2 ) : cv->GetStartPoint( p, i < 2 ) )
                {   z.push_back( R3( p.x ) ); z.push_back( R3( p.y ) ); z.push_back( R3( p.z ) ); }
        }
        else if( k == 124 )
        {
            MCAD_TRANSFORM t = as<IGES_ENTITY_124>( e )->GetTransformMatrix();
            for( int i = 0; i < 3; ++i )
            {
                for( int j = 0; j < 3; ++j ) z.push_back( lround( t.R.v[i][j] ) );
                z.push_back( R3( i == 0 ? t.T.x : i == 1 ? t.T.y : t.T.z ) );
            }
        }
        s += ",\"z\":" + jarr( z );
    }
    return s + "}";
}
static void emitObs( bool full )
{
    fputs( ",\"e\":[", OUT );
    for( int i = 1; i <= NE; ++i ) { if( i > 1 ) fputc( ',', OUT ); fputs( obsE( i, full ).c_str(), OUT ); }
    fputs( "],\"m\":[", OUT );
    for( int m = 1; m <= NM; ++m )
    {
        vector<long> v;
        if( m > 1 ) fputc( ',', OUT );
        if( !MD[m] ) v.push_back( -1 );
        else for( auto p : MD[m]->verifEntities() ) v.push_back( idOf( p ) );
        fputs( jarr( v ).c_str(), OUT );
    }
    fputs( "]", OUT );
}

// all real-valued parameters of an entity, in file order
static vector<double> vals( IGES_ENTITY* e )
{
    vector<double> v;
#define P(x) v.push_back( x )
    switch( e->GetEntityType() )
    {
        case 100: { auto p = as<IGES_ENTITY_100>( e ); P(p->zOffset);P(p->xCenter);P(p->yCenter);P(p->xStart);P(p->yStart);P(p->xEnd);P(p->yEnd); } break;
        case 104: { auto p = as<IGES_ENTITY_104>( e ); P(p->A);P(p->B);P(p->C);P(p->D);P(p->E);P(p->F);P(p->ZT);P(p->X1);P(p->Y1);P(p->X2);P(p->Y2); } break;
        case 110: { auto p = as<IGES_ENTITY_110>( e ); P(p->X1);P(p->Y1);P(p->Z1);P(p->X2);P(p->Y2);P(p->Z2); } break;
        case 120: { auto p = as<IGES_ENTITY_120>( e ); P(p->startAngle);P(p->endAngle); } break;
        case 122: { auto p = as<IGES_ENTITY_122>( e ); P(p->LX);P(p->LY);P(p->LZ); } break;
        case 124: { auto p = as<IGES_ENTITY_124>( e ); 
            for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) P( p->T.R.v[i][j] ); P( i == 0 ? p->T.T.x : i == 1 ? p->T.T.y : p->T.T.z ); } } break;
        case 126: { auto p = as<IGES_ENTITY_126>( e ); int n, o; double *k = NULL, *c = NULL, v0, v1; bool r, cl, pe;
            if( p->GetNURBSData( n, o, &k, &c, r, cl, pe, v0, v1 ) )
            { P(n);P(o);P(r);P(cl);P(pe);P(v0);P(v1); for( int i = 0; i < n + o; ++i ) P( k[i] ); for( int i = 0; i < n * ( r ? 4 : 3 ); ++i ) P( c[i] ); } } break;
        case 128: { auto p = as<IGES_ENTITY_128>( e ); int n1, n2, o1, o2; double *k1 = NULL, *k2 = NULL, *c = NULL, u0, u1, v0, v1; bool r, c1, c2, p1, p2;
            if( p->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &c, r, c1, c2, p1, p2, u0, u1, v0, v1 ) )
            { P(n1);P(n2);P(o1);P(o2);P(r);P(c1);P(c2);P(p1);P(p2);P(u0);P(u1);P(v0);P(v1);
              for( int i = 0; i < n1 + o1; ++i ) P( k1[i] ); for( int i = 0; i < n2 + o2; ++i ) P( k2[i] );
              for( int i = 0; i < n1 * n2 * ( r ? 4 : 3 ); ++i ) P( c[i] ); } } break;
        case 142: { auto p = as<IGES_ENTITY_142>( e ); P(p->CRTN);P(p->PREF); } break;
        case 154: { auto p = as<IGES_ENTITY_154>( e ); P(p->H);P(p->R);P(p->X1);P(p->Y1);P(p->Z1);P(p->I1);P(p->J1);P(p->K1); } break;
        case 164: { auto p = as<IGES_ENTITY_164>( e ); P(p->L);P(p->I1);P(p->J1);P(p->K1); } break;
        case 314: { auto p = as<IGES_ENTITY_314>( e ); P(p->red);P(p->green);P(p->blue); } break;
        case 408: { auto p = as<IGES_ENTITY_408>( e ); P(p->X);P(p->Y);P(p->Z);P(p->S); } break;
    }
#undef P
    return v;
}
static bool setVals( IGES_ENTITY* e, const vector<double>& v )
{
    size_t i = 0;
    auto N = [&]() { return i < v.size() ? v[i++] : 0.0; };
    switch( e->GetEntityType() )
    {
        case 100: { auto p = as<IGES_ENTITY_100>( e ); p->zOffset=N();p->xCenter=N();p->yCenter=N();p->xStart=N();p->yStart=N();p->xEnd=N();p->yEnd=N(); } break;
        case 104: { auto p = as<IGES_ENTITY_104>( e ); p->A=N();p->B=N();p->C=N();p->D=N();p->E=N();p->F=N();p->ZT=N();p->X1=N();p->Y1=N();p->X2=N();p->Y2=N(); } break;
        case 110: { auto p = as<IGES_ENTITY_110>( e ); p->X1=N();p->Y1=N();p->Z1=N();p->X2=N();p->Y2=N();p->Z2=N(); } break;
        case 120: { auto p = as<IGES_ENTITY_120>( e ); p->startAngle=N();p->endAngle=N(); } break;
        case 122: { auto p = as<IGES_ENTITY_122>( e ); p->LX=N();p->LY=N();p->LZ=N(); } break;
        case 124: { auto p = as<IGES_ENTITY_124>( e );
            for( int a = 0; a < 3; ++a ) { for( int j = 0; j < 3; ++j ) p->T.R.v[a][j] = N(); ( a == 0 ? p->T.T.x : a == 1 ? p->T.T.y : p->T.T.z ) = N(); } } break;
        case 126: { auto p = as<IGES_ENTITY_126>( e ); int n = (int)N(), o = (int)N(); bool r = N() != 0; double v0 = N(), v1 = N();
            vector<double> k, c; for( int j = 0; j < n + o; ++j ) k.push_back( N() ); for( int j = 0; j < n * ( r ? 4 : 3 ); ++j ) c.push_back( N() );
            return p->SetNURBSData( n, o, k.data(), c.data(), r, v0, v1 ); } break;
        case 128: { auto p = as<IGES_ENTITY_128>( e ); int n1 = (int)N(), n2 = (int)N(), o1 = (int)N(), o2 = (int)N(); bool r = N() != 0, p1 = N() != 0, p2 = N() != 0;
            double u0 = N(), u1 = N(), v0 = N(), v1 = N();
            vector<double> k, k2, c; for( int j = 0; j < n1 + o1; ++j ) k.push_back( N() ); for( int j = 0; j < n2 + o2; ++j ) k2.push_back( N() );
            for( int j = 0; j < n1 * n2 * ( r ? 4 : 3 ); ++j ) c.push_back( N() );
            return p->SetNURBSData( n1, n2, o1, o2, k.data(), k2.data(), c.data(), r, p1, p2, u0, u1, v0, v1 ); } break;
        case 142: { auto p = as<IGES_ENTITY_142>( e ); p->CRTN=(int)N();p->PREF=(int)N(); } break;
        case 154: { auto p = as<IGES_ENTITY_154>( e ); p->H=N();p->R=N();p->X1=N();p->Y1=N();p->Z1=N();p->I1=N();p->J1=N();p->K1=N(); } break;
        case 164: { auto p = as<IGES_ENTITY_164>( e ); p->L=N();p->I1=N();p->J1=N();p->K1=N(); } break;
        case 314: { auto p = as<IGES_ENTITY_314>( e ); p->red=N();p->green=N();p->blue=N(); } break;
        case 408: { auto p = as<IGES_ENTITY_408>( e ); p->X=N();p->Y=N();p->Z=N();p->S=N(); } break;
        default: return false;
    }
    return true;
}
static void defaults( IGES_ENTITY* e, int a, int b )
{
    static const double px[] = { 0, 1, 0, 6, 3 }, py[] = { 0, 0, 1, 0, 4 };
    switch( e->GetEntityType() )
    {
        case 100: setVals( e, { 0, 5, 0, 6, 0, 6, 0 } ); break;
        case 104: setVals( e, { 1, 0, 4, 0, 0, -4, 0, 2, 0, 0, 1 } ); e->SetEntityForm( 1 ); break;
        case 110: setVals( e, { px[a], py[a], 0, px[b], py[b], 0 } ); break;
        case 122: setVals( e, { 0, 0, 2 } ); break;
        case 126: setVals( e, { 2, 2, 0, 0, 1, 0, 0, 1, 1, px[a], py[a], 0, px[b], py[b], 0 } ); break;
        case 128: setVals( e, { 2, 2, 2, 2, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 1,  0,0,0, 1,0,0, 0,1,0, 1,1,0 } ); break;
        case 154: setVals( e, { 1, 1, 0, 0, 0, 0, 0, 1 } ); break;
        case 164: setVals( e, { 1, 0, 0, 1 } ); break;
        case 314: setVals( e, { 10, 20, 30 } ); break;
        case 408: setVals( e, { 0, 0, 0, 1 } ); break;
        case 406: { e->SetEntityForm( 15 ); as<IGES_ENTITY_406>( e )->SetData( "prop" ); } break;
        case 308: as<IGES_ENTITY_308>( e )->NAME = "sub"; break;
    }
}
static string dec( const string& h )      // %XX decoding for string arguments; "-" = empty
{
    string r;
    if( h == "-" ) return r;
    for( size_t i = 0; i < h.size(); ++i )
        if( h[i] == '%' && i + 2 < h.size() ) { r += (char)strtol( h.substr( i + 1, 2 ).c_str(), NULL, 16 ); i += 2; }
        else r += h[i];
    return r;
}
static string jstr( const string& s )     // as a list of character codes
{
    vector<long> v;
    for( unsigned char c : s ) v.push_back( c );
    return jarr( v );
}

static string dece( double v )            // a double as [m,e], nine significant digits
{
    char b[40]; snprintf( b, 40, "%.8e", v );
    if( !( fabs( v ) < 1e300 ) ) return "[1,999]";
    string d; bool neg = b[0] == '-'; int e = 0;
    for( char* q = b + ( neg ? 1 : 0 ); *q; ++q ) { if( *q == 'e' ) { e = atoi( q + 1 ); break; } if( *q != '.' ) d += *q; }
    e -= 8;
    while( d.size() > 1 && d[d.size() - 1] == '0' ) { d.erase( d.size() - 1 ); ++e; }
    long m = atol( d.c_str() );
    if( m == 0 ) return "[0,0]";
    return "[" + to_string( neg ? -m : m ) + "," + to_string( e ) + "]";
}
static string nameOf( IGES_ENTITY* p )
{
    if( p->GetEntityType() == 308 ) return as<IGES_ENTITY_308>( p )->NAME;
    if( p->GetEntityType() == 314 ) return as<IGES_ENTITY_314>( p )->cname;
    if( p->GetEntityType() == 406 ) { const void* d = as<IGES_ENTITY_406>( p )->GetData(); if( d ) return *(const std::string*)d; }
    return "";
}
static string obsV( int id )              // parameters, name, label and comments of an entity
{
    if( !E[id].alive ) return "{\"p\":[],\"n\":[],\"b\":[],\"c\":[]}";
    IGES_ENTITY* e = E[id].p;
    string s = "{\"p\":[";
    vector<double> v = vals( e );
    for( size_t i = 0; i < v.size(); ++i ) { if( i ) s += ","; s += dece( v[i] ); }
    s += "],\"n\":" + jstr( nameOf( e ) ) + ",\"b\":" + jstr( string( e->GetLabel() ) ) + ",\"c\":[";
    int n = e->GetNComments();
    for( int i = 0; i < n; ++i ) { if( i ) s += ","; s += jstr( e->GetComment( i ) ); }
    return s + "]}";
}
static double mte( const string& m, const string& e ) { return strtod( ( m + "e" + e ).c_str(), NULL ); }

#ifndef API_HOOK
static bool hook( const vector<string>& w, long& r, string& extra ) { (void)w; (void)r; (void)extra; return false; }
static void hookObs() {}
static void hookEnd() {}
#else
static bool hook( const vector<string>& w, long& r, string& extra );
static void hookObs();
static void hookEnd();
#endif

static void endScript()
{
    hookEnd();
    for( int m = 1; m < MAXM; ++m ) if( MD[m] ) { IGES* t = MD[m]; MD[m] = NULL; delete t; }
    for( int i = 1; i < MAXE; ++i ) if( E[i].alive ) delete E[i].p;
    for( int i = 1; i < MAXE; ++i ) { E[i].p = NULL; E[i].alive = false; }
    NE = 0;
    for( int i = 0; i < 60; ++i ) { string f = WD + "/" + to_string( i ) + ".igs"; if( unlink( f.c_str() ) ) rmdir( f.c_str() ); }
}

int main( int argc, char** argv )
{
    ifstream in( argv[1] );
    OUT = fopen( argv[2], "w" );
    if( argc > 3 ) WD = argv[3];
    string line, sid = "0";
    int step = 0;
    int obsFrom = 0; bool full = true;
    while( getline( in, line ) )
    {
        istringstream is( line );
        vector<string> w; string t;
        while( is >> t ) w.push_back( t );
        if( w.empty() ) continue;
        if( w[0] == "#S" ) { sid = w[1]; step = 0; NM = w.size() > 2 ? atoi( w[2].c_str() ) : 2; NE = w.size() > 3 ? atoi( w[3].c_str() ) : 0;
            obsFrom = w.size() > 4 ? ( w[4] == "noobs" ? 1000000 : atoi( w[4].c_str() ) ) : 0;
            for( int m = 1; m <= NM; ++m ) { MD[m] = new IGES(); MD[m]->globalData.maxLinewidthGrad = 4; } 
            fprintf( OUT, "{\"t\":%s,\"i\":0,\"op\":\"start\",\"a\":[%d,%d]}\n", sid.c_str(), NM, NE ); fflush( OUT ); continue; }
        if( w[0] == "#E" ) { endScript(); fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"end\"}\n", sid.c_str(), ++step ); fflush( OUT ); continue; }
        ++step;
        auto A = [&]( size_t i ) { return i < w.size() ? atoi( w[i].c_str() ) : 0; };
        auto D = [&]( size_t i ) { return i < w.size() ? atof( w[i].c_str() ) : 0.0; };
        auto PE = [&]( size_t i ) -> IGES_ENTITY* { int k = A( i ); return k > 0 && E[k].alive ? E[k].p : NULL; };
        auto PM = [&]( size_t i ) -> IGES* { int k = A( i ); return k > 0 ? MD[k] : NULL; };
        const string& c = w[0];
        long r = 0; string extra; bool force = false;
        if( c == "M" ) { MD[A(1)] = new IGES(); MD[A(1)]->globalData.maxLinewidthGrad = 4; r = 1; }
        else if( c == "Mx" ) { IGES* m = PM(1); delete m; MD[A(1)] = NULL; r = 1; }
        else if( c == "clear" ) { r = PM(1)->Clear(); if( r ) PM(1)->globalData.maxLinewidthGrad = 4; }
        else if( c == "cull" ) { PM(1)->Cull( A(2) != 0 ); r = 1; }
        else if( c == "new" ) { IGES_ENTITY* e = NULL; r = PM(1)->NewEntity( A(3), &e ); if( e ) { reg( A(2), e ); defaults( e, A(4), A(5) ); } }
        else if( c == "free" ) { delete PE(1); r = 1; }
        else if( c == "add" ) r = PM(1)->AddEntity( PE(2) );
        else if( c == "unl" ) r = PM(1)->UnlinkEntity( PE(2) );
        else if( c == "del" ) r = PM(1)->DelEntity( PE(2) );
        else if( c == "set" )
        {
            IGES_ENTITY* p = PE(1); int i = A(2); IGES_ENTITY* x = PE(3); bool nul = ( A(3) == 0 );
            IGES_CURVE* cv = as<IGES_CURVE>( x );
            r = 0;
            if( i == 8 ) r = p->SetTransform( x );
            else if( i == 9 ) r = p->SetColor( x );
            else switch( p->GetEntityType() )
            {
                case 120: if( cv || nul ) r = i == 1 ? as<IGES_ENTITY_120>( p )->SetL( cv ) : as<IGES_ENTITY_120>( p )->SetC( cv ); break;
                case 122: if( cv || nul ) r = as<IGES_ENTITY_122>( p )->SetDE( cv ); break;
                case 142: { auto q = as<IGES_ENTITY_142>( p ); r = i == 1 ? q->SetSPTR( x ) : i == 2 ? q->SetBPTR( x ) : q->SetCPTR( x ); } break;
                case 144: { auto q = as<IGES_ENTITY_144>( p );
                    if( i == 1 ) r = q->SetPTS( x ); else { auto y = as<IGES_ENTITY_142>( x ); if( y || nul ) r = q->SetPTO( y ); } } break;
                case 164: if( cv || nul ) r = as<IGES_ENTITY_164>( p )->SetClosedCurve( cv ); break;
                case 408: { auto y = as<IGES_ENTITY_308>( x ); if( y || nul ) r = as<IGES_ENTITY_408>( p )->SetDE( y ); } break;
            }
        }
        else if( c == "app" )
        {
            IGES_ENTITY* p = PE(1); IGES_ENTITY* x = PE(2); bool nul = ( A(2) == 0 );
            switch( p->GetEntityType() )
            {
                case 102: { auto cv = as<IGES_CURVE>( x ); if( cv || nul ) r = as<IGES_ENTITY_102>( p )->AddSegment( cv ); } break;
                case 144: { auto y = as<IGES_ENTITY_142>( x ); if( y || nul ) r = as<IGES_ENTITY_144>( p )->AddPTI( y ); } break;
                case 180: r = as<IGES_ENTITY_180>( p )->AddArg( x ); break;
                case 308: r = as<IGES_ENTITY_308>( p )->AddDE( x ); break;
            }
        }
        else if( c == "rem" )
        {
            IGES_ENTITY* p = PE(1); IGES_ENTITY* x = PE(2);
            if( p->GetEntityType() == 144 ) { auto y = as<IGES_ENTITY_142>( x ); if( y ) r = as<IGES_ENTITY_144>( p )->DelPTI( y ); }
            else if( p->GetEntityType() == 308 ) r = as<IGES_ENTITY_308>( p )->DelDE( x );
        }
        else if( c == "xap" ) r = PE(1)->AddOptionalEntity( PE(2) );
        else if( c == "xrm" ) r = PE(1)->DelOptionalEntity( PE(2) );
        else if( c == "top" ) r = as<IGES_ENTITY_180>( PE(1) )->AddOp( (BTREE_OPERATOR)A(2) );
        else if( c == "tcl" ) { as<IGES_ENTITY_180>( PE(1) )->ClearNodes(); r = 1; }
        else if( c == "at" )
        {
            IGES_ENTITY* p = PE(1); int i = A(2), v = A(3);
            switch( i )
            {
                case 1: r = p->SetDependency( (IGES_STAT_DEPENDS)v ); break;
                case 2: r = p->SetEntityUse( (IGES_STAT_USE)v ); break;
                case 3: r = p->SetHierarchy( (IGES_STAT_HIER)v ); break;
                case 4: r = p->SetVisibility( v != 0 ); break;
                case 5: r = p->SetColor( (IGES_COLOR)v ); break;
                case 6: r = p->SetLevel( v ); break;
                case 7: r = p->SetLineWeightNum( v ); break;
                case 8: r = p->SetEntitySubscript( v ); break;
                case 9: r = p->SetLineFontPattern( (IGES_LINEFONT_PATTERN)v ); break;
                case 10: r = p->SetEntityForm( v ); break;
            }
        }
        else if( c == "pt" ) { double v[6]; for( int i = 0; i < 6; ++i ) v[i] = A( i + 2 ) / 1000.0; r = 1; IGES_ENTITY* e = PE(1);
            switch( e->GetEntityType() ) {
                case 100: setVals( e, { v[2], v[0] - 1, v[1], v[0], v[1], v[3], v[4] } ); break;
                case 104: { auto p = as<IGES_ENTITY_104>( e ); p->X1 = v[0]; p->Y1 = v[1]; p->ZT = v[2]; p->X2 = v[3]; p->Y2 = v[4]; } break;
                case 110: setVals( e, { v[0], v[1], v[2], v[3], v[4], v[5] } ); break;
                case 126: r = setVals( e, { 2, 2, 0, 0, 1, 0, 0, 1, 1, v[0], v[1], v[2], v[3], v[4], v[5] } ); break; } }
        else if( c == "tm" ) { vector<double> v; for( int i = 0; i < 12; ++i ) v.push_back( i % 4 == 3 ? A( i + 2 ) / 1000.0 : A( i + 2 ) ); setVals( PE(1), v ); r = 1; }
        else if( c == "res" ) { PM(1)->globalData.minResolution = A(2) ? A(2) / 1000.0 : 1e-8; r = 1; }
        else if( c == "label" ) r = PE(1)->SetLabel( dec( w[2] ) );
        else if( c == "glabel" ) { r = 1; extra = ",\"v\":" + jstr( string( PE(1)->GetLabel() ) ); }
        else if( c == "val" ) { vector<double> v; for( size_t i = 2; i + 1 < w.size(); i += 2 ) v.push_back( mte( w[i], w[i + 1] ) ); r = setVals( PE(1), v ); }
        else if( c == "vobs" ) { extra = ",\"w\":["; for( int i = 1; i <= NE; ++i ) { if( i > 1 ) extra += ","; extra += obsV( i ); } extra += "]"; r = 1; force = true; }
        else if( c == "comment" ) r = PE(1)->AddComment( dec( w[2] ) );
        else if( c == "gcomment" ) { int n = PE(1)->GetNComments(); r = n; extra = ",\"v\":["; for( int i = 0; i < n; ++i ) { if( i ) extra += ","; extra += jstr( PE(1)->GetComment( i ) ); } extra += "]"; }
        else if( c == "name" ) { IGES_ENTITY* p = PE(1); r = 1;
            if( p->GetEntityType() == 308 ) as<IGES_ENTITY_308>( p )->NAME = dec( w[2] );
            else if( p->GetEntityType() == 314 ) as<IGES_ENTITY_314>( p )->cname = dec( w[2] );
            else if( p->GetEntityType() == 406 ) { string s = dec( w[2] ); r = as<IGES_ENTITY_406>( p )->SetData( s.c_str() ); }
            else r = 0; }
        else if( c == "gname" ) { IGES_ENTITY* p = PE(1); string s; r = 1;
            if( p->GetEntityType() == 308 ) s = as<IGES_ENTITY_308>( p )->NAME;
            else if( p->GetEntityType() == 314 ) s = as<IGES_ENTITY_314>( p )->cname;
            else if( p->GetEntityType() == 406 ) { const void* d = as<IGES_ENTITY_406>( p )->GetData(); if( d ) s = *(const std::string*)d; }
            extra = ",\"v\":" + jstr( s ); }
        else if( c == "geo" ) { vector<double> v; for( size_t i = 2; i < w.size(); ++i ) v.push_back( D(i) ); r = setVals( PE(1), v ); }
        else if( c == "ggeo" ) { double sc = D(2); vector<double> v = vals( PE(1) ); vector<long> q; for( double d : v ) q.push_back( fabs( d * sc ) < 2e9 ? lround( d * sc ) : ( d > 0 ? 2000000000 : -2000000000 ) ); r = 1; extra = ",\"v\":" + jarr( q ); }
        else if( c == "geox" ) { vector<double> v = vals( PE(1) ); r = 1; extra = ",\"v\":["; char b[64]; for( size_t i = 0; i < v.size(); ++i ) { snprintf( b, 64, "%s\"%.17g\"", i ? "," : "", v[i] ); extra += b; } extra += "]"; }
        else if( c == "alg" )
        {
            MCAD_TRANSFORM m = as<IGES_ENTITY_124>( PE(1) )->GetTransformMatrix(), n = as<IGES_ENTITY_124>( PE(2) )->GetTransformMatrix();
            double sc = A(3);
            MCAD_POINT p, q;
            p.x = A(4) / 1000.0; p.y = A(5) / 1000.0; p.z = A(6) / 1000.0;
            q.x = A(7) / 1000.0; q.y = A(8) / 1000.0; q.z = A(9) / 1000.0;
            vector<long> v;
            auto put = [&]( const MCAD_POINT& a ) { v.push_back( R3( a.x ) ); v.push_back( R3( a.y ) ); v.push_back( R3( a.z ) ); };
            auto all = [&]( const MCAD_MATRIX& M, const MCAD_POINT& t )
            {   for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) v.push_back( lround( M.v[i][j] ) ); v.push_back( R3( i == 0 ? t.x : i == 1 ? t.y : t.z ) ); } };
            MCAD_TRANSFORM a = m * n, b( m ), d = sc * m, f( m.R, m.T );
            b *= n; f *= sc;
            all( a.R, a.T ); all( b.R, b.T ); all( d.R, d.T ); all( f.R, f.T );
            MCAD_MATRIX s1 = m.R + n.R, s2 = m.R - n.R, s3( m.R ), s4( m.R ), s5( m.R ), s6( m.R );
            s3 += n.R; s4 -= n.R; s5 *= n.R; s6 *= sc;
            all( s1, n.T ); all( s2, n.T );
            put( m * p ); put( p + q ); put( p - q ); put( p * sc );
            MCAD_POINT p1 = p, p2 = p, p3 = p, p4 = sc * p;
            p1 += q; p2 -= q; p3 *= sc;
            MCAD_POINT o = m * p, o2 = m.R * p;
            auto near = []( const MCAD_POINT& a, const MCAD_POINT& b, double e ) { return fabs( a.x - b.x ) < e && fabs( a.y - b.y ) < e && fabs( a.z - b.z ) < e; };
            bool same = near( p1, p + q, 1e-9 ) && near( p2, p - q, 1e-9 ) && near( p3, p * sc, 1e-9 ) && near( p4, p * sc, 1e-9 ) && near( o2 + m.T, o, 1e-9 );
            MCAD_MATRIX w1 = m.R * sc, w2 = sc * m.R;
            for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j )
                same = same && s3.v[i][j] == s1.v[i][j] && s4.v[i][j] == s2.v[i][j] && s5.v[i][j] == a.R.v[i][j] && s6.v[i][j] == d.R.v[i][j] && w1.v[i][j] == d.R.v[i][j] && w2.v[i][j] == d.R.v[i][j];
            if( !same ) v.push_back( -1 );
            r = 1; extra = ",\"v\":" + jarr( v );
        }
        else if( c == "mat" ) { MCAD_TRANSFORM m = as<IGES_ENTITY_124>( PE(1) )->GetTransformMatrix(); double sc = D(2); vector<long> q;
            for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) q.push_back( lround( m.R.v[i][j] * sc ) ); q.push_back( lround( ( i == 0 ? m.T.x : i == 1 ? m.T.y : m.T.z ) * sc ) ); }
            r = 1; extra = ",\"v\":" + jarr( q ); }
        else if( c == "pts" ) { IGES_CURVE* cv = as<IGES_CURVE>( PE(1) ); double sc = D(2); vector<long> q; MCAD_POINT p;
            for( int x = 1; x >= 0; --x ) {
                if( cv->GetStartPoint( p, x ) ) { q.push_back( lround( p.x * sc ) ); q.push_back( lround( p.y * sc ) ); q.push_back( lround( p.z * sc ) ); } else q.push_back( -1 );
                if( cv->GetEndPoint( p, x ) ) { q.push_back( lround( p.x * sc ) ); q.push_back( lround( p.y * sc ) ); q.push_back( lround( p.z * sc ) ); } else q.push_back( -1 ); }
            r = cv->IsClosed(); extra = ",\"v\":" + jarr( q ); }
        else if( c == "export" ) { IGES_ENTITY_308* p = NULL; r = PM(1)->Export( PM(2), &p ); if( p ) reg( A(3), p );
            extra = ",\"v\":[" + to_string( p ? A(3) : 0 ) + "]"; if( p && w.size() > 4 ) extra += ",\"name\":" + jstr( p->NAME ); }
        else if( c == "write" ) { string f = WD + "/" + w[2]; r = PM(1)->Write( f.c_str(), A(3) != 0 ); }
        else if( c == "uwrite" )          // by a user who may write to the file but not read it
        { int rc = -1; chmod( WD.c_str(), 0755 ); if( WOOK && !chdir( WD.c_str() ) ) rc = seteuid( 65534 ); r = PM(1)->Write( rc ? ( WD + "/" + w[2] ).c_str() : w[2].c_str(), A(3) != 0 ); if( !rc ) { if( seteuid( 0 ) ) _exit( 3 ); } }
        else if( c == "fbad" ) r = 0 == symlink( "nowhere/nothing.igs", ( WD + "/" + w[1] ).c_str() );
        else if( c == "fwo" )             // r 2: made unreadable to its owner, 1: an ordinary file (no such users here)
        { string f = WD + "/" + w[1]; { ofstream o( f.c_str(), ios::binary | ios::trunc ); o << dec( w[2] ); r = o.good(); }
          chmod( WD.c_str(), 0755 );
          if( r && !chown( f.c_str(), 65534, 65534 ) && !chmod( f.c_str(), 0200 ) && !chdir( WD.c_str() ) && !seteuid( 65534 ) )
          { ifstream i( w[1].c_str() ); ofstream o( w[1].c_str(), ios::app | ios::binary ); WOOK = !i.is_open() && o.is_open(); r = WOOK ? 2 : 1; }
          if( 0 != geteuid() ) { if( seteuid( 0 ) ) _exit( 3 ); } }
        else if( c == "read" ) { string f = WD + "/" + w[2]; r = PM(1)->Read( f.c_str() );
            vector<long> q;
            if( MD[A(1)] ) { int b = A(3); for( auto p : PM(1)->verifEntities() ) if( idOf( p ) <= 0 ) { reg( b, p ); q.push_back( b ); ++b; } }
            extra = ",\"v\":" + jarr( q ); }
        else if( c == "dump" )            // the lines of a file (r: 0 missing, 1 ends with a newline, 2 does not)
        {
            ifstream f( ( WD + "/" + w[1] ).c_str(), ios::binary ); string all( ( istreambuf_iterator<char>( f ) ), istreambuf_iterator<char>() );
            extra = ",\"L\":["; r = f.is_open() ? 2 : 0; size_t p = 0; bool first = true;
            while( p < all.size() ) { size_t q = all.find( '\n', p ); if( q == string::npos ) q = all.size(); else if( q + 1 == all.size() ) r = 1;
                if( !first ) extra += ","; first = false; extra += jstr( all.substr( p, q - p ) ); p = q + 1; }
            extra += "]";
        }
        else if( c == "stat" )            // what is at a path: 0 nothing, 1 file, 2 directory; with size and a hash
        {
            struct stat st; string f = WD + "/" + w[1]; vector<long> q;
            if( stat( f.c_str(), &st ) ) r = 0; else if( S_ISDIR( st.st_mode ) ) r = 2; else { r = 1; ifstream i( f.c_str(), ios::binary ); long h = 7, n = 0; char ch;
                while( i.get( ch ) ) { h = ( h * 31 + (unsigned char)ch ) % 1000003; ++n; } q.push_back( n ); q.push_back( h ); }
            extra = ",\"v\":" + jarr( q );
        }
        else if( c == "fput" || c == "fputv" ) { ofstream f( ( WD + "/" + w[1] ).c_str(), ios::binary | ios::trunc ); string s = w.size() > 2 ? dec( w[2] ) : ""; f << s; r = f.good(); }
        else if( c == "fdel" ) { string f = WD + "/" + w[1]; r = ( 0 == unlink( f.c_str() ) || 0 == rmdir( f.c_str() ) ); }
        else if( c == "fdir" ) r = 0 == mkdir( ( WD + "/" + w[1] ).c_str(), 0755 );
        else if( c == "flink" ) r = 0 == symlink( w[2].c_str(), ( WD + "/" + w[1] ).c_str() );
        else if( c == "units" ) r = PM(1)->ConvertUnits( (IGES_UNIT)A(2) );
        else if( c == "scale" ) { r = PM(1)->ChangeModelScale( D(2) ); extra = ",\"d\":" + dece( D(2) ); }
        else if( c == "gset" )
        {
            IGES_GLOBAL& g = PM(1)->globalData; const string& f = w[2]; r = 1; string s = w.size() > 3 ? w[3] : "-";
            if( f == "pdelim" ) g.pdelim = dec( s )[0];
            else if( f == "rdelim" ) g.rdelim = dec( s )[0];
            else if( f == "idss" ) g.productIDSS = dec( s );
            else if( f == "idrs" ) g.productIDRS = dec( s );
            else if( f == "nsys" ) g.nativeSystemID = dec( s );
            else if( f == "prep" ) g.preprocessorVersion = dec( s );
            else if( f == "fname" ) g.fileName = dec( s );
            else if( f == "author" ) g.author = dec( s );
            else if( f == "org" ) g.organization = dec( s );
            else if( f == "cdate" ) g.creationDate = dec( s );
            else if( f == "mdate" ) g.modificationDate = dec( s );
            else if( f == "note" ) g.applicationNote = dec( s );
            else if( f == "uname" ) g.unitsName = dec( s );
            else if( f == "scale" ) g.modelScale = D(3);
            else if( f == "units" ) g.unitsFlag = (IGES_UNIT)A(3);
            else if( f == "lwg" ) g.maxLinewidthGrad = A(3);
            else if( f == "lw" ) g.maxLinewidth = D(3);
            else if( f == "res" ) g.minResolution = D(3);
            else if( f == "maxc" ) g.maxCoordinateValue = D(3);
            else if( f == "draft" ) g.draftStandard = (IGES_DRAFTING_STANDARD)A(3);
            else if( f == "ver" ) g.igesVersion = A(3);
            else r = 0;
            extra = ",\"f\":\"" + f + "\",\"x\":" + jstr( dec( s ) ) + ",\"d\":" + dece( D(3) );
        }
        else if( c == "gget" )
        {
            IGES_GLOBAL& g = PM(1)->globalData; r = 1; char b[400];
            extra = ",\"g\":{\"pdelim\":" + to_string( (int)g.pdelim ) + ",\"rdelim\":" + to_string( (int)g.rdelim )
                + ",\"idss\":" + jstr( g.productIDSS ) + ",\"idrs\":" + jstr( g.productIDRS ) + ",\"nsys\":" + jstr( g.nativeSystemID )
                + ",\"fname\":" + jstr( g.fileName ) + ",\"prep\":" + jstr( g.preprocessorVersion )
                + ",\"author\":" + jstr( g.author ) + ",\"org\":" + jstr( g.organization ) + ",\"cdate\":" + jstr( g.creationDate )
                + ",\"note\":" + jstr( g.applicationNote ) + ",\"uname\":" + jstr( g.unitsName )
                + ",\"mdlen\":" + to_string( g.modificationDate.size() ) + ",\"mdate\":" + jstr( g.modificationDate )
                + ",\"units\":" + to_string( (int)g.unitsFlag ) + ",\"lwg\":" + to_string( g.maxLinewidthGrad )
                + ",\"draft\":" + to_string( (int)g.draftStandard ) + ",\"ver\":" + to_string( g.igesVersion );
            (void)b; extra += ",\"scale\":" + dece( g.modelScale ) + ",\"lw\":" + dece( g.maxLinewidth ) + ",\"res\":" + dece( g.minResolution ) + ",\"maxc\":" + dece( g.maxCoordinateValue ) + "}";
        }
        else if( c == "head" ) { string s = dec( w[2] ); const char* p = s.c_str(); r = PM(1)->AddToHeader( p ); }
        else if( c == "ghead" ) { extra = ",\"v\":["; r = (long)PM(1)->GetNHeaderLines(); bool f1 = true; for( auto& s : PM(1)->verifStart() ) { if( !f1 ) extra += ","; f1 = false; extra += jstr( s ); } extra += "]"; }
        else if( c == "uname" ) { const char* p = PM(1)->GetUnitName(); r = 1; extra = ",\"v\":" + jstr( p ? p : "" ); }
        else if( c == "depth" ) { IGES_ENTITY* p = PE(1); r = p->GetEntityType() == 308 ? as<IGES_ENTITY_308>( p )->getDepthLevel() : as<IGES_ENTITY_408>( p )->getDepthLevel(); }
        else if( c == "des" ) { vector<long> q; for( int i = 1; i <= NE; ++i ) q.push_back( E[i].alive ? E[i].p->getDESequence() : 0 ); r = 1; extra = ",\"v\":" + jarr( q ); }
        else if( hook( w, r, extra ) ) {}
        else { fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"BADOP\"}\n", sid.c_str(), step ); fflush( OUT ); continue; }
        // the operation: name and integer arguments
        fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"%s\",\"a\":[", sid.c_str(), step, c.c_str() );
        for( size_t i = 1; i < w.size(); ++i ) fprintf( OUT, "%s%d", i > 1 ? "," : "", atoi( w[i].c_str() ) );
        if( c == "label" || c == "comment" || c == "name" || c == "head" ) extra += ",\"x\":" + jstr( w.size() > 2 ? dec( w[2] ) : string() );
        fprintf( OUT, "],\"r\":%ld%s", r, extra.c_str() );
        if( force || step >= obsFrom ) { emitObs( full ); hookObs(); }
        fputs( "}\n", OUT ); fflush( OUT );
    }
    fclose( OUT );
    return 0;
}
