// Replays behaviours of spec/GeomGen.tla on MCAD_SEGMENT and MCAD_OUTLINE and records a trace.
// Coordinates of scripts are integers ("units"); the real ones are unit*scale+offset. Results are
// reported in thousandths of a unit.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <mcad_elements.h>
#include <mcad_helpers.h>
#include <mcad_segment.h>
#include <mcad_outline.h>
using namespace std;
static FILE* OUT;
static double SC = 1, OX = 0, OY = 0;
static string sid;
static int step;
static vector<string> W;
static size_t pos;
static int nextInt() { return pos < W.size() ? atoi( W[pos++].c_str() ) : 0; }
static double RX( double x ) { return x * SC + OX; }
static double RY( double y ) { return y * SC + OY; }
static long rnd( double v ) { if( !( v == v ) || v > 2e6 || v < -2e6 ) return 2000000; return lround( v * 1000 ); }
static long UX( double x ) { return rnd( ( x - OX ) / SC ); }
static long UY( double y ) { return rnd( ( y - OY ) / SC ); }
static long UL( double x ) { return rnd( x / SC ); }
static string pt( const MCAD_POINT& p ) { return "[" + to_string( UX( p.x ) ) + "," + to_string( UY( p.y ) ) + "]"; }
static MCAD_POINT P( double x, double y ) { MCAD_POINT p; p.x = RX( x ); p.y = RY( y ); p.z = 0; return p; }
static long setr;
static MCAD_SEGMENT* seg()
{
    int k = nextInt(), ax = nextInt(), ay = nextInt(), bx = nextInt(), by = nextInt(), cx = nextInt(), cy = nextInt(), cw = nextInt();
    MCAD_SEGMENT* s = new MCAD_SEGMENT;
    if( k == 1 ) setr = s->SetParams( P( ax, ay ), P( bx, by ) );
    else setr = s->SetParams( P( cx, cy ), P( ax, ay ), P( bx, by ), cw != 0 );
    return s;
}
static string show( MCAD_SEGMENT* s )
{
    MCAD_POINT c = s->GetCenter();
    string r = "[" + to_string( (int)s->GetSegType() ) + "," + pt( s->GetMStart() ) + "," + pt( s->GetMEnd() ) + "," + pt( c );
    return r + "," + to_string( s->GetSegType() == MCAD_SEGTYPE_LINE ? 0 : UL( s->GetRadius() ) ) + "," + to_string( s->IsCW() ? 1 : 0 ) + "]";
}
static long cs( double v ) { return ( v == v ) ? lround( v * 1000 ) : 99999; }
static string full( MCAD_SEGMENT* s )
{
    MCAD_POINT p0, p1, m;
    bool bb = s->GetBoundingBox( p0, p1 );
    bool bm = s->GetMidpoint( m );
    string r = "{\"s\":" + show( s ) + ",\"st\":" + pt( s->GetStart() ) + ",\"en\":" + pt( s->GetEnd() );
    r += ",\"bb\":[" + to_string( UX( p0.x ) ) + "," + to_string( UY( p0.y ) ) + "," + to_string( UX( p1.x ) ) + "," + to_string( UY( p1.y ) ) + "],\"ok\":" + to_string( bb && bm ? 1 : 0 );
    r += ",\"mid\":" + pt( m ) + ",\"len\":" + to_string( UL( s->GetLength() ) );
    double v[4] = { s->GetStartAngle(), s->GetEndAngle(), s->GetMSAngle(), s->GetMEAngle() };
    r += ",\"ang\":[";
    for( int i = 0; i < 4; ++i ) r += string( i ? "," : "" ) + "[" + to_string( cs( cos( v[i] ) ) ) + "," + to_string( cs( sin( v[i] ) ) ) + "]";
    r += "],\"sw\":" + to_string( cs( v[1] - v[0] ) ) + "}";
    return r;
}
static string chain( MCAD_OUTLINE* o )
{
    string r = "[";
    bool f = true;
    for( auto* s : *o->GetSegments() ) { if( !f ) r += ","; f = false; r += show( s ); }
    return r + "]";
}
static string probe( MCAD_OUTLINE* o, long& err )
{
    string r = "[";
    err = 0;
    for( int y = -1; y <= 9; ++y ) for( int x = -1; x <= 9; ++x )
    {
        bool e = false;
        bool in = o->IsInside( P( x, y ), e );
        if( r.size() > 1 ) r += ",";
        r += in ? "1" : "0";
        if( e ) err = 1;
    }
    return r + "]";
}
int main( int argc, char** argv )
{
    if( argc < 3 ) return 2;
    ifstream in( argv[1] );
    OUT = fopen( argv[2], "w" );
    string line;
    map<int, MCAD_OUTLINE*> Q;
    vector<MCAD_SEGMENT*> loose;
    while( getline( in, line ) )
    {
        istringstream is( line );
        W.clear();
        string w;
        while( is >> w ) W.push_back( w );
        if( W.empty() ) continue;
        if( W[0] == "#S" )
        {
            static const double scs[] = { 1, 0.5, 2, 10, 0.1, 3.7, 25.4 };
            sid = W[1]; SC = scs[ atoi( W[2].c_str() ) % 7 ]; OX = atof( W[3].c_str() ); OY = atof( W[4].c_str() );
            step = 0;
            fprintf( OUT, "{\"t\":%s,\"i\":0,\"op\":\"start\"}\n", sid.c_str() ); fflush( OUT );
            continue;
        }
        if( W[0] == "#E" )
        {
            for( auto& q : Q ) delete q.second;
            for( auto* s : loose ) delete s;
            Q.clear(); loose.clear();
            fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"end\"}\n", sid.c_str(), step ); fflush( OUT );
            continue;
        }
        ++step;
        pos = 1;
        string c = W[0], x;
        long r = 0;
        if( c == "isect" )
        {
            MCAD_SEGMENT* a = seg(); MCAD_SEGMENT* b = seg();
            list<MCAD_POINT> L; MCAD_INTERSECT_FLAG f = MCAD_IFLAG_NONE;
            r = a->GetIntersections( *b, L, f );
            x = ",\"f\":" + to_string( (int)f ) + ",\"p\":[";
            bool first = true;
            for( auto& p : L ) { if( !first ) x += ","; first = false; x += pt( p ); }
            x += "]";
            delete a; delete b;
        }
        else if( c == "mk" )
        {
            MCAD_SEGMENT* a = seg(); r = setr;
            x = ",\"q\":" + ( r ? full( a ) : string( "{}" ) );
            delete a;
        }
        else if( c == "split" )
        {
            MCAD_SEGMENT* a = seg(); int n = nextInt();
            list<MCAD_POINT> L; list<MCAD_SEGMENT*> R;
            for( int i = 0; i < n; ++i ) { int px = nextInt(), py = nextInt(); L.push_back( P( px, py ) ); }
            x = ",\"q0\":" + full( a );
            r = a->Split( L, R );
            x += ",\"q\":[" + full( a );
            for( auto* s : R ) x += "," + full( s );
            x += "]";
            delete a;
            for( auto* s : R ) delete s;
        }
        else
        {
            int o = nextInt();
            bool err = false;
            if( c == "new" ) { if( Q.count( o ) ) delete Q[o]; Q[o] = new MCAD_OUTLINE; r = 1; }
            else if( !Q.count( o ) ) { fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"BADOP\"}\n", sid.c_str(), step ); continue; }
            else if( c == "add" )
            {
                MCAD_SEGMENT* s = seg();
                r = Q[o]->AddSegment( s, err );
                if( !r ) delete s;
            }
            else if( c == "probe" ) { r = 1; }
            else if( c == "opo" )
            {
                int q = nextInt(), sub = nextInt();
                r = sub ? Q[o]->SubOutline( Q[q], err ) : Q[o]->AddOutline( Q[q], err );
                if( r ) Q.erase( q );
                else { x += ",\"pb\":"; long e2; x += Q[q]->IsClosed() ? probe( Q[q], e2 ) : string( "[]" ); }
            }
            else if( c == "opc" )
            {
                int sub = nextInt();
                MCAD_SEGMENT* s = seg(); 
                r = sub ? Q[o]->SubOutline( s, err ) : Q[o]->AddOutline( s, err );
                if( !r ) delete s;
            }
            else if( c == "cuto" )
            {
                int q = nextInt(), ov = nextInt();
                size_t n0 = Q[o]->GetCutouts()->size();
                r = Q[o]->AddCutout( Q[q], ov, err );

                if( r ) Q.erase( q );
            }
            else if( c == "cutc" )
            {
                int ov = nextInt();
                MCAD_SEGMENT* s = seg();
                r = Q[o]->AddCutout( s, ov, err );
                if( !r ) delete s;
            }
            else { fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"BADOP\"}\n", sid.c_str(), step ); continue; }
            MCAD_OUTLINE* q = Q[o];
            long pe = 0;
            x += ",\"e\":" + to_string( err ? 1 : 0 ) + ",\"cl\":" + to_string( q->IsClosed() ? 1 : 0 ) + ",\"co\":" + to_string( q->IsClosed() && q->IsContiguous() ? 1 : 0 );
            x += ",\"sg\":" + chain( q ) + ",\"in\":" + ( q->IsClosed() ? probe( q, pe ) : string( "[]" ) ) + ",\"pe\":" + to_string( pe );
            x += ",\"hc\":[";
            bool first = true;
            for( auto* s : *q->GetDrillHoles() ) { if( !first ) x += ","; first = false; x += show( s ); }
            x += "],\"cu\":[";
            first = true;
            for( auto* s : *q->GetCutouts() ) { long e2; if( !first ) x += ","; first = false; x += probe( s, e2 ); }
            x += "]";
        }
        fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"%s\",\"a\":[", sid.c_str(), step, c.c_str() );
        for( size_t i = 1; i < W.size(); ++i ) fprintf( OUT, "%s%d", i > 1 ? "," : "", atoi( W[i].c_str() ) );
        fprintf( OUT, "],\"r\":%ld%s}\n", r, x.c_str() ); fflush( OUT );
    }
    fclose( OUT );
    return 0;
}
