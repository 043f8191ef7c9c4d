// Builds board solids (IGES_GEOM_PCB) from outlines, or converts IDF boards (idf2igs), and records the faces
// of the resulting trimmed surfaces: the model space pieces of every loop and the parameter space pieces
// mapped through the surface, evaluated here. Coordinates are reported in thousandths of a unit.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#define main idf2igs_main
#include "idf2igs.cpp"
#undef main
#include <core/iges.h>
#include <core/all_entities.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/iges_geom_pcb.h>
using namespace std;
static FILE* OUT;
static double SC = 1, OX = 0, OY = 0;
static vector<string> W;
static size_t pos;
static int nextInt() { return pos < W.size() ? atoi( W[pos++].c_str() ) : 0; }
static MCAD_POINT P( double x, double y ) { return MCAD_POINT( x * SC + OX, y * SC + OY, 0 ); }
static long rnd( double v ) { if( !( v == v ) || v > 1e6 || v < -1e6 ) return 1000000000; return lround( v * 1000 ); }
static string num( const MCAD_POINT& p ) { return to_string( rnd( ( p.x - OX ) / SC ) ) + "," + to_string( rnd( ( p.y - OY ) / SC ) ) + "," + to_string( rnd( p.z / SC ) ); }

struct Piece { int k; MCAD_POINT p[3]; };       // 0 line, 1 arc, 2 other; start, middle, end
struct Xf { MCAD_TRANSFORM t; bool on; Xf() : on( false ) {} MCAD_POINT operator()( const MCAD_POINT& p ) const { if( !on ) return p; MCAD_POINT q; const double* a[3] = { t.R.v[0], t.R.v[1], t.R.v[2] };
    q.x = a[0][0] * p.x + a[0][1] * p.y + a[0][2] * p.z + t.T.x; q.y = a[1][0] * p.x + a[1][1] * p.y + a[1][2] * p.z + t.T.y; q.z = a[2][0] * p.x + a[2][1] * p.y + a[2][2] * p.z + t.T.z; return q; } };
static Xf own( IGES_ENTITY* e )
{
    Xf x; vector<IGES_ENTITY_124*> c;
    for( IGES_ENTITY* t = e->pTransform; t && c.size() < 20; t = t->pTransform ) { IGES_ENTITY_124* k = dynamic_cast<IGES_ENTITY_124*>( t ); if( !k ) break; c.push_back( k ); }
    for( size_t i = 0; i < c.size(); ++i )      // innermost first
    {
        MCAD_TRANSFORM a = x.t, b = c[i]->T, r;
        if( !x.on ) { x.t = b; x.on = true; continue; }
        for( int m = 0; m < 3; ++m ) for( int n = 0; n < 3; ++n ) { r.R.v[m][n] = 0; for( int q = 0; q < 3; ++q ) r.R.v[m][n] += b.R.v[m][q] * a.R.v[q][n]; }
        Xf y; y.t = b; y.on = true; r.T = y( a.T ); x.t = r;
    }
    return x;
}
// rational B-spline basis: value of a curve at t (control points of dimension d)
static vector<double> spline( const double* kn, int n, int k, vector<vector<double>> c, double t )
{
    int j = k - 1;
    while( j < n - 1 && t >= kn[j + 1] ) ++j;
    for( int r = 1; r < k; ++r ) for( int i = j; i > j - k + r; --i )
    {
        double d = kn[i + k - r] - kn[i], a = d > 0 ? ( t - kn[i] ) / d : 0;
        for( size_t q = 0; q < c[i].size(); ++q ) c[i][q] = ( 1 - a ) * c[i - 1][q] + a * c[i][q];
    }
    return c[j];
}
static MCAD_POINT at126( IGES_ENTITY_126* e, double f )
{
    int d = e->PROP3 == 0 ? 4 : 3, n = e->K + 1, k = e->M + 1;
    vector<vector<double>> c;
    for( int i = 0; i < n; ++i ) { vector<double> v( e->coeffs + i * d, e->coeffs + i * d + d ); c.push_back( v ); }
    vector<double> v = spline( e->knots, n, k, c, e->V0 + f * ( e->V1 - e->V0 ) );
    double w = d == 4 ? v[3] : 1;
    return MCAD_POINT( v[0] / w, v[1] / w, v[2] / w );
}
static bool onSurf( IGES_ENTITY* s, double u, double v, MCAD_POINT& p )
{
    Xf x = own( s );
    if( IGES_ENTITY_128* e = dynamic_cast<IGES_ENTITY_128*>( s ) )
    {
        int d = e->PROP3 == 0 ? 4 : 3, n1 = e->K1 + 1, n2 = e->K2 + 1, k1 = e->M1 + 1, k2 = e->M2 + 1;
        if( u < e->U0 - 1e-6 || u > e->U1 + 1e-6 || v < e->V0 - 1e-6 || v > e->V1 + 1e-6 ) return false;
        vector<vector<double>> row;
        for( int j = 0; j < n2; ++j )
        {
            vector<vector<double>> c;
            for( int i = 0; i < n1; ++i ) { const double* q = e->coeffs + ( j * n1 + i ) * d; c.push_back( vector<double>( q, q + d ) ); }
            row.push_back( spline( e->knots1, n1, k1, c, u ) );
        }
        vector<double> r = spline( e->knots2, n2, k2, row, v );
        double w = d == 4 ? r[3] : 1;
        p = x( MCAD_POINT( r[0] / w, r[1] / w, r[2] / w ) );
        return true;
    }
    if( IGES_ENTITY_120* e = dynamic_cast<IGES_ENTITY_120*>( s ) )
    {
        IGES_ENTITY_110* L = dynamic_cast<IGES_ENTITY_110*>( e->L ); IGES_ENTITY_110* C = dynamic_cast<IGES_ENTITY_110*>( e->C );
        if( !L || !C || u < -1e-6 || u > 1 + 1e-6 || v < e->startAngle - 1e-6 || v > e->endAngle + 1e-6 ) return false;
        Xf xl = own( L ), xc = own( C );
        MCAD_POINT a = xl( MCAD_POINT( L->X1, L->Y1, L->Z1 ) ), b = xl( MCAD_POINT( L->X2, L->Y2, L->Z2 ) );
        MCAD_POINT g = xc( MCAD_POINT( C->X1 + u * ( C->X2 - C->X1 ), C->Y1 + u * ( C->Y2 - C->Y1 ), C->Z1 + u * ( C->Z2 - C->Z1 ) ) );
        double n[3] = { b.x - a.x, b.y - a.y, b.z - a.z }, l = sqrt( n[0] * n[0] + n[1] * n[1] + n[2] * n[2] );
        if( l < 1e-12 ) return false;
        for( int i = 0; i < 3; ++i ) n[i] /= l;
        double r[3] = { g.x - a.x, g.y - a.y, g.z - a.z }, dt = r[0] * n[0] + r[1] * n[1] + r[2] * n[2], cv = cos( v ), sv = sin( v );
        double cr[3] = { n[1] * r[2] - n[2] * r[1], n[2] * r[0] - n[0] * r[2], n[0] * r[1] - n[1] * r[0] }, q[3];
        for( int i = 0; i < 3; ++i ) q[i] = r[i] * cv + cr[i] * sv + n[i] * dt * ( 1 - cv );
        p = x( MCAD_POINT( a.x + q[0], a.y + q[1], a.z + q[2] ) );
        return true;
    }
    return false;
}
static bool flat( IGES_ENTITY* e, vector<IGES_ENTITY*>& out, int depth = 0 )
{
    if( !e || depth > 5 ) return false;
    if( IGES_ENTITY_102* c = dynamic_cast<IGES_ENTITY_102*>( e ) ) { if( c->curves.empty() ) return false; for( auto* x : c->curves ) if( !flat( x, out, depth + 1 ) ) return false; return true; }
    out.push_back( e );
    return true;
}
static bool piece( IGES_ENTITY* e, Piece& r )
{
    Xf x = own( e );
    if( IGES_ENTITY_110* l = dynamic_cast<IGES_ENTITY_110*>( e ) )
    {
        r.k = 0; r.p[0] = MCAD_POINT( l->X1, l->Y1, l->Z1 ); r.p[2] = MCAD_POINT( l->X2, l->Y2, l->Z2 );
        r.p[1] = MCAD_POINT( ( l->X1 + l->X2 ) / 2, ( l->Y1 + l->Y2 ) / 2, ( l->Z1 + l->Z2 ) / 2 );
    }
    else if( IGES_ENTITY_100* a = dynamic_cast<IGES_ENTITY_100*>( e ) )
    {
        r.k = 1;
        double rad = hypot( a->xStart - a->xCenter, a->yStart - a->yCenter ), a0 = atan2( a->yStart - a->yCenter, a->xStart - a->xCenter ), a1 = atan2( a->yEnd - a->yCenter, a->xEnd - a->xCenter );
        if( hypot( a->xStart - a->xEnd, a->yStart - a->yEnd ) < 1e-8 ) a1 = a0 + 2 * M_PI;
        while( a1 < a0 ) a1 += 2 * M_PI;
        double m = ( a0 + a1 ) / 2;
        r.p[0] = MCAD_POINT( a->xStart, a->yStart, a->zOffset ); r.p[2] = MCAD_POINT( a->xEnd, a->yEnd, a->zOffset );
        r.p[1] = MCAD_POINT( a->xCenter + rad * cos( m ), a->yCenter + rad * sin( m ), a->zOffset );
    }
    else if( IGES_ENTITY_126* n = dynamic_cast<IGES_ENTITY_126*>( e ) ) { r.k = 2; for( int i = 0; i < 3; ++i ) r.p[i] = at126( n, i / 2.0 ); }
    else return false;
    for( int i = 0; i < 3; ++i ) r.p[i] = x( r.p[i] );
    return true;
}
static string loop( IGES_ENTITY_144* f, IGES_ENTITY_142* b, const Xf& world, bool& ok )
{
    string g, u;
    if( !b || !b->SPTR || b->SPTR != f->PTS || !b->BPTR || !b->CPTR ) { ok = false; return "{\"g\":[],\"u\":[]}"; }
    vector<IGES_ENTITY*> B, C;
    if( !flat( b->BPTR, B ) || !flat( b->CPTR, C ) ) ok = false;
    for( auto* e : C )
    {
        Piece p;
        if( !piece( e, p ) ) { ok = false; continue; }
        g += string( g.empty() ? "" : "," ) + "[" + to_string( p.k ) + "," + num( world( p.p[0] ) ) + "," + num( world( p.p[1] ) ) + "," + num( world( p.p[2] ) ) + "]";
    }
    for( auto* e : B )
    {
        Piece p; MCAD_POINT q[3];
        if( !piece( e, p ) ) { ok = false; continue; }
        for( int i = 0; i < 3; ++i ) { if( !onSurf( f->PTS, p.p[i].x, p.p[i].y, q[i] ) ) { ok = false; q[i] = MCAD_POINT( 1e9, 1e9, 1e9 ); } else q[i] = world( q[i] ); }
        u += string( u.empty() ? "" : "," ) + "[3," + num( q[0] ) + "," + num( q[1] ) + "," + num( q[2] );
        u += "," + to_string( lround( p.p[0].x * 1e5 ) ) + "," + to_string( lround( p.p[0].y * 1e5 ) ) + "," + to_string( lround( p.p[2].x * 1e5 ) ) + "," + to_string( lround( p.p[2].y * 1e5 ) ) + "]";
    }
    return "{\"g\":[" + g + "],\"u\":[" + u + "]}";
}
static string face( IGES_ENTITY_144* f, const Xf& world )
{
    bool ok = f->PTS && f->PTO && f->N1 == 1;
    string r;
    if( f->PTS )
    {
        r = loop( f, f->PTO, world, ok );
        for( auto* b : f->PTI ) r += "," + loop( f, b, world, ok );
    }
    return "{\"c\":" + to_string( ok ? 1 : 0 ) + ",\"lp\":[" + r + "]}";
}
static MCAD_SEGMENT* seg( long& ok )
{
    int k = nextInt(), ax = nextInt(), ay = nextInt(), bx = nextInt(), by = nextInt(), cx = nextInt(), cy = nextInt(), cw = nextInt();
    MCAD_SEGMENT* s = new MCAD_SEGMENT;
    if( k == 1 ) ok &= s->SetParams( P( ax, ay ), P( bx, by ) );
    else ok &= s->SetParams( P( cx, cy ), P( ax, ay ), P( bx, by ), cw != 0 );
    return s;
}
static long outline( MCAD_OUTLINE* o )
{
    long ok = 1; int n = nextInt(); bool err = false;
    for( int i = 0; i < n; ++i ) { MCAD_SEGMENT* s = seg( ok ); if( !o->AddSegment( s, err ) ) { ok = 0; delete s; } }
    return ok && o->IsClosed();
}
// the faces of an instance, placed in the world
static void place( IGES_ENTITY_308* d, const Xf& w, string& r, int depth );
static void member( IGES_ENTITY* e, const Xf& w, string& r, int depth )
{
    if( IGES_ENTITY_144* f = dynamic_cast<IGES_ENTITY_144*>( e ) )
    {
        Xf x = own( f ), y = w;
        if( x.on ) y.on = false, r += "";     // the placement of a face of its own is not used by the library
        r += string( r.empty() ? "" : "," ) + face( f, w );
    }
    else if( IGES_ENTITY_408* k = dynamic_cast<IGES_ENTITY_408*>( e ) )
    {
        if( !k->DE || depth > 5 ) return;
        MCAD_TRANSFORM a; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) a.R.v[i][j] = i == j ? k->S : 0; a.T = MCAD_POINT( k->X, k->Y, k->Z );
        Xf b = own( k ), z; z.on = true; z.t = a;
        if( b.on ) { for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) z.t.R.v[i][j] = b.t.R.v[i][j] * k->S; z.t.T = b( a.T ); }
        if( w.on ) { Xf q = z; for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) { q.t.R.v[i][j] = 0; for( int m = 0; m < 3; ++m ) q.t.R.v[i][j] += w.t.R.v[i][m] * z.t.R.v[m][j]; } q.t.T = w( z.t.T ); z = q; }
        place( k->DE, z, r, depth + 1 );
    }
}
static void place( IGES_ENTITY_308* d, const Xf& w, string& r, int depth ) { for( auto* e : d->DE ) member( e, w, r, depth ); }
static string world( IGES& m, long& ok )
{
    string out;
    for( auto* e : m.entities )
    {
        string r;
        if( IGES_ENTITY_408* k = dynamic_cast<IGES_ENTITY_408*>( e ) )
        {
            if( !k->refs.empty() ) continue;
            member( k, Xf(), r, 0 );
        }
        else if( IGES_ENTITY_144* f = dynamic_cast<IGES_ENTITY_144*>( e ) )
        {
            if( !f->refs.empty() ) continue;
            member( f, Xf(), r, 0 );
        }
        else continue;
        out += string( out.empty() ? "" : "," ) + "[" + r + "]";
    }
    return out;
}
int main( int argc, char** argv )
{
    if( argc < 3 ) return 2;
    ifstream in( argv[1] );
    OUT = fopen( argv[2], "w" );
    string line, sid;
    int step = 0;
    IGES_GEOM_PCB* B = NULL;
    while( getline( in, line ) )
    {
        istringstream is( line );
        W.clear();
        string w;
        while( is >> w ) W.push_back( w );
        if( W.empty() ) continue;
        if( W[0] == "#S" )
        {
            static const double scs[] = { 1, 0.5, 2, 2.54, 0.1, 3.7, 25.4 };
            sid = W[1]; SC = scs[ atoi( W[2].c_str() ) % 7 ]; OX = atof( W[3].c_str() ); OY = atof( W[4].c_str() );
            step = 0;
            fprintf( OUT, "{\"t\":%s,\"i\":0,\"op\":\"start\"}\n", sid.c_str() ); fflush( OUT );
            continue;
        }
        if( W[0] == "#E" )
        {
            delete B; B = NULL;
            fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"end\"}\n", sid.c_str(), step ); fflush( OUT );
            continue;
        }
        ++step;
        pos = 1;
        string c = W[0], x;
        long r = 0;
        bool err = false, bad = false;
        if( c == "brd" ) { delete B; B = new IGES_GEOM_PCB; r = outline( B ); }
        else if( c == "idf" )
        {
            // fresh copies of the program's static state are not needed: colours are created per model
            string f = W[1], o = f.substr( 0, f.size() - 4 ) + ".igs";
            remove( o.c_str() );
            char a0[] = "idf2igs"; vector<char> a1( f.begin(), f.end() ); a1.push_back( 0 );
            char* av[] = { a0, a1.data(), NULL };
            r = idf2igs_main( 2, av ) == 0;
            setlocale( LC_ALL, "C" );
            IGES m; long ok = 1;
            ifstream t( o.c_str() );
            bool there = t.is_open();
            t.close();
            x = ",\"w\":" + to_string( there ? 1 : 0 );
            if( there && !m.Read( o.c_str() ) ) x += ",\"rd\":0,\"in\":[]";
            else x += ",\"rd\":" + to_string( there ? 1 : 0 ) + ",\"in\":[" + ( there ? world( m, ok ) : string() ) + "]";
        }
        else if( !B ) bad = true;
        else if( c == "cut" || c == "xcut" )
        {
            int ov = nextInt();
            MCAD_OUTLINE* o = new MCAD_OUTLINE;
            r = outline( o ) && B->AddCutout( o, ov != 0, err );
            if( !r ) delete o;
        }
        else if( c == "hole" )
        {
            int ov = nextInt(), cx = nextInt(), cy = nextInt(), rad = nextInt();
            MCAD_SEGMENT* s = new MCAD_SEGMENT;
            s->SetParams( P( cx, cy ), P( cx + rad, cy ), P( cx + rad, cy ), false );
            r = B->AddCutout( s, ov != 0, err );
            if( !r ) delete s;
        }
        else if( c == "sol" )
        {
            double top = nextInt() * SC, bot = nextInt() * SC;
            IGES m;
            vector<IGES_ENTITY_144*> S;
            r = B->GetVerticalSurface( &m, err, S, top, bot );
            r = B->GetTrimmedPlane( &m, err, S, top, false ) && r;
            r = B->GetTrimmedPlane( &m, err, S, bot, true ) && r;
            x = ",\"f\":[";
            for( size_t i = 0; i < S.size(); ++i ) x += string( i ? "," : "" ) + face( S[i], Xf() );
            x += "]";
        }
        else bad = true;
        if( bad ) { fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"BADOP\"}\n", sid.c_str(), step ); fflush( OUT ); continue; }
        fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"%s\",\"a\":[", sid.c_str(), step, c.c_str() );
        if( c != "idf" ) for( size_t i = 1; i < W.size(); ++i ) fprintf( OUT, "%s%d", i > 1 ? "," : "", atoi( W[i].c_str() ) );
        fprintf( OUT, "],\"r\":%ld,\"e\":%d%s}\n", r, err ? 1 : 0, x.c_str() ); fflush( OUT );
    }
    fclose( OUT );
    return 0;
}
