// Replays behaviours of spec/IdfOwnerGen.tla on the IDF classes, and reads and writes IDF files;
// only public members are used. Lengths of the first are thousandths, of the second 1e-5 mm.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <idf_helpers.h>
#include <idf_common.h>
#include <idf_outlines.h>
#include <idf_parser.h>
using namespace std;
using namespace IDF3;
static FILE* OUT;
static vector<string> W;
static const int NOB = 8, NCO = 5;
static IDF3_BOARD* B;
static int kind[NOB + 1];
static BOARD_OUTLINE* O[NOB + 1];
static IDF3_COMPONENT* C[NCO + 1];
static int cst[NCO + 1];
static map<int, IDF_OUTLINE*> L;
static int A( size_t i ) { return i < W.size() ? atoi( W[i].c_str() ) : 0; }
static long r3( double v ) { return ( v == v && fabs( v ) < 2e6 ) ? lround( v * 1000 ) : 2000000000; }
static long r5( double v ) { return ( v == v && fabs( v ) < 2e4 ) ? lround( v * 1e5 ) : 2000000000; }
static string N( long v ) { return to_string( v ); }
static string Q( const string& s )
{
    string r = "\"";
    for( char c : s ) { if( c == '"' || c == '\\' ) r += '\\'; if( (unsigned char)c < 32 ) { char b[8]; snprintf( b, 8, "\\u%04x", c ); r += b; } else r += c; }
    return r + "\"";
}
static IDF_OUTLINE* rect( double x, double y, double w )
{
    IDF_OUTLINE* o = new IDF_OUTLINE;
    double px[5] = { x, x + w, x + w, x, x }, py[5] = { y, y, y + w, y + w, y };
    for( int i = 0; i < 4; ++i ) { IDF_POINT a, b; a.x = px[i]; a.y = py[i]; b.x = px[i + 1]; b.y = py[i + 1]; o->push( new IDF_SEGMENT( a, b ) ); }
    return o;
}
static IDF_OUTLINE* shape( int k, double x, double y, double w )
{
    IDF_OUTLINE* o = new IDF_OUTLINE;
    double q[4][2] = { { x, y }, { x + w, y }, { x + w, y + w }, { x, y + w } };
    if( k == 1 ) { swap( q[1][0], q[3][0] ); swap( q[1][1], q[3][1] ); }
    if( k == 2 ) { IDF_POINT a, b; a.x = x; a.y = y; b.x = x + w; b.y = y; o->push( new IDF_SEGMENT( a, b, 360.0, false ) ); return o; }
    for( int i = 0; i < 4; ++i )
    {
        IDF_POINT a, b;
        a.x = q[i][0]; a.y = q[i][1]; b.x = q[( i + 1 ) % 4][0]; b.y = q[( i + 1 ) % 4][1];
        double g = k == 3 && i == 1 ? 180 : k == 3 && i == 3 ? 90 : 0;
        o->push( g == 0 ? new IDF_SEGMENT( a, b ) : new IDF_SEGMENT( a, b, g, false ) );
    }
    return o;
}
static string drill( IDF_DRILL_DATA* d ) { return "[" + N( r3( d->GetDrillDia() ) ) + "," + N( lround( d->GetDrillXPos() ) ) + "," + N( lround( d->GetDrillYPos() ) ) + "," + N( d->GetDrillOwner() ) + "]"; }
template<class T, class F> static string arr( const T& q, F f )
{
    string r = "[";
    for( auto& x : q ) { if( r.size() > 1 ) r += ","; r += f( x ); }
    return r + "]";
}
static int num( const string& s ) { return s.size() > 1 && s[0] == 'N' ? atoi( s.c_str() + 1 ) : 0; }
static string dumpO()
{
    string r = ",\"o\":[";
    for( int i = 1; i <= NOB; ++i )
    {
        if( i > 1 ) r += ",";
        BOARD_OUTLINE* o = O[i];
        int sd = 5; string nm;
        switch( kind[i] )
        {
        case 2: case 6: sd = ( (OTHER_OUTLINE*)o )->GetSide(); nm = ( (OTHER_OUTLINE*)o )->GetOutlineIdentifier(); break;
        case 3: case 5: sd = ( (ROUTE_OUTLINE*)o )->GetLayers(); break;
        case 4: case 7: sd = ( (PLACE_OUTLINE*)o )->GetSide(); break;
        case 8: sd = ( (GROUP_OUTLINE*)o )->GetSide(); nm = ( (GROUP_OUTLINE*)o )->GetGroupName(); break;
        default: break;
        }
        if( !kind[i] ) { r += "[0,0,0,5,0,[]]"; continue; }
        r += "[" + N( kind[i] ) + "," + N( o->GetOwner() ) + "," + N( r3( o->GetThickness() ) ) + "," + N( sd ) + "," + N( num( nm ) ) + ",";
        r += arr( *o->GetOutlines(), []( IDF_OUTLINE* p ) { for( auto& x : L ) if( x.second == p ) return N( x.first ) + ( p->size() == 4 ? "" : "00" ); return string( "99" ); } ) + "]";
    }
    r += "],\"d\":" + arr( B->GetBoardDrills(), drill ) + ",\"c\":[";
    for( int i = 1; i <= NCO; ++i )
    {
        if( i > 1 ) r += ",";
        bool in = false;
        for( auto& x : *B->GetComponents() ) if( x.second == C[i] && C[i] ) in = true;
        if( cst[i] == 2 && !in ) cst[i] = 3;
        if( cst[i] == 1 && in ) cst[i] = 2;
        IDF3_COMPONENT* c = C[i];
        if( cst[i] != 1 && cst[i] != 2 ) { r += "[" + N( cst[i] ) + "]"; continue; }
        double x, y, a; IDF_LAYER l;
        string ps = "[]";
        if( c->GetPosition( x, y, a, l ) ) ps = "[" + N( lround( x ) ) + "," + N( lround( y ) ) + "," + N( lround( a ) ) + "," + N( l ) + "]";
        r += "[" + N( cst[i] ) + "," + N( num( c->GetRefDes() ) ) + "," + N( c->GetPlacement() ) + "," + ps + "," + arr( *c->GetDrills(), drill ) + ",";
        r += arr( *c->GetOutlinesData(), []( IDF3_COMP_OUTLINE_DATA* d ) {
            double x, y, z, a; d->GetOffsets( x, y, z, a );
            int o = 0; for( int j = 1; j <= NOB; ++j ) if( O[j] && (void*)O[j] == (void*)d->GetOutline() ) o = j;
            return "[" + N( lround( x ) ) + "," + N( lround( y ) ) + "," + N( lround( z ) ) + "," + N( lround( a ) ) + "," + N( o ) + "]"; } ) + "]";
    }
    return r + "]";
}
// ---- whole boards
static string loop( IDF_OUTLINE* o )
{
    string r = "[";
    for( auto s : *o ) { if( r.size() > 1 ) r += ","; r += "[" + N( r5( s->startPoint.x ) ) + "," + N( r5( s->startPoint.y ) ) + "," + N( r5( s->endPoint.x ) ) + "," + N( r5( s->endPoint.y ) ) + "," + N( r3( s->angle ) ) + "]"; }
    return r + "]";
}
static string strs( list<string>* q ) { return arr( *q, []( const string& s ) { return Q( s ); } ); }
static string dr5( IDF_DRILL_DATA* d )
{
    return "[" + N( r5( d->GetDrillDia() ) ) + "," + N( r5( d->GetDrillXPos() ) ) + "," + N( r5( d->GetDrillYPos() ) ) + "," + N( d->GetDrillPlating() ) + "," + Q( d->GetDrillRefDes() ) + "," + Q( d->GetDrillHoleType() ) + "," + N( d->GetDrillOwner() ) + "]";
}
static string dumpB()
{
    BOARD_OUTLINE* b = B->GetBoardOutline();
    string r = ",\"u\":" + N( B->GetUnit() ) + ",\"nm\":" + Q( B->GetBoardName() ) + ",\"th\":" + N( r5( B->GetBoardThickness() ) ) + ",\"own\":" + N( b->GetOwner() ) + ",\"lp\":" + arr( *b->GetOutlines(), loop ) + ",\"cm\":" + strs( b->GetComments() );
    r += ",\"oth\":" + arr( *B->GetOtherOutlines(), []( const pair<const string, OTHER_OUTLINE*>& p ) {
        return "[" + Q( p.second->GetOutlineIdentifier() ) + "," + N( p.second->GetOwner() ) + "," + N( r5( p.second->GetThickness() ) ) + "," + N( p.second->GetSide() ) + "," + arr( *p.second->GetOutlines(), loop ) + "]"; } );
    r += ",\"dr\":" + arr( B->GetBoardDrills(), dr5 );
    r += ",\"cp\":" + arr( *B->GetComponents(), []( const pair<const string, IDF3_COMPONENT*>& p ) {
        IDF3_COMPONENT* c = p.second;
        double x, y, a; IDF_LAYER l;
        string s = "[" + Q( c->GetRefDes() ) + "," + N( c->GetPlacement() ) + ",";
        s += c->GetPosition( x, y, a, l ) ? "[" + N( r5( x ) ) + "," + N( r5( y ) ) + "," + N( r3( a ) ) + "," + N( l ) + "]" : string( "[]" );
        s += "," + arr( *c->GetDrills(), dr5 ) + "," + arr( *c->GetOutlinesData(), []( IDF3_COMP_OUTLINE_DATA* d ) {
            double x, y, z, a; d->GetOffsets( x, y, z, a );
            IDF3_COMP_OUTLINE* o = d->GetOutline();
            return "[" + Q( o ? o->GetGeomName() : string() ) + "," + Q( o ? o->GetPartName() : string() ) + "," + N( r5( x ) ) + "," + N( r5( y ) ) + "," + N( r5( z ) ) + "," + N( r3( a ) ) + "]"; } );
        return s + "]"; } );
    r += ",\"lib\":" + arr( B->GetComponentOutlines(), []( const pair<const string, IDF3_COMP_OUTLINE*>& p ) {
        IDF3_COMP_OUTLINE* o = p.second;
        return "[" + Q( o->GetGeomName() ) + "," + Q( o->GetPartName() ) + "," + N( o->GetComponentClass() ) + "," + N( r5( o->GetThickness() ) ) + "," + N( o->GetUnit() ) + "," + arr( *o->GetOutlines(), loop ) + "]"; } );
    r += ",\"bs\":" + Q( B->GetBoardSource() ) + ",\"bd\":" + Q( B->GetBoardDate() ) + ",\"bv\":" + N( B->GetBoardVersion() ) + ",\"ls\":" + Q( B->GetLibrarySource() ) + ",\"ld\":" + Q( B->GetLibraryDate() ) + ",\"lv\":" + N( B->GetLibraryVersion() );
    return r;
}
int main( int argc, char** argv )
{
    if( argc < 4 ) return 2;
    ifstream in( argv[1] );
    OUT = fopen( argv[2], "w" );
    string line, sid;
    int step = 0, cad = 0;
    while( getline( in, line ) )
    {
        istringstream is( line );
        W.clear();
        string w;
        while( is >> w ) W.push_back( w );
        if( W.empty() ) continue;
        if( W[0] == "#S" )
        {
            sid = W[1]; cad = A( 2 ); step = 0;
            B = new IDF3_BOARD( cad ? CAD_MECH : CAD_ELEC );
            for( int i = 1; i <= NOB; ++i ) { kind[i] = 0; O[i] = NULL; }
            for( int i = 1; i <= NCO; ++i ) { C[i] = NULL; cst[i] = 0; }
            kind[1] = 1; O[1] = B->GetBoardOutline();
            L.clear();
            fprintf( OUT, "{\"t\":%s,\"i\":0,\"op\":\"start\",\"a\":[%d]}\n", sid.c_str(), cad ); fflush( OUT );
            continue;
        }
        if( W[0] == "#E" )
        {
            for( int i = 1; i <= NCO; ++i ) if( cst[i] == 1 ) delete C[i];
            delete B;
            fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"end\"}\n", sid.c_str(), step ); fflush( OUT );
            continue;
        }
        ++step;
        string c = W[0], x;
        long r = 0;
        bool bad = false, whole = false;
        int a1 = A( 1 ), a2 = A( 2 );
        string nm = a2 ? "N" + N( a2 ) : string();
        if( c == "rd" ) { r = B->ReadFile( W[1], A( 2 ) != 0 ); whole = true; }
        else if( c == "wr" ) { r = B->WriteFile( W[1], A( 2 ) != 0, A( 3 ) != 0 ); whole = true; }
        else if( c == "fresh" ) { delete B; B = new IDF3_BOARD( cad ? CAD_MECH : CAD_ELEC ); O[1] = B->GetBoardOutline(); r = 1; whole = true; }
        else if( c == "clear" ) { B->Clear(); r = 1; whole = true; }
        else if( c == "bn" ) { B->SetBoardName( W[1] ); r = 1; whole = true; }
        else if( c == "sr" ) { B->SetIDFSource( W[1] ); r = 1; whole = true; }
        else if( c == "bo" )
        {
            IDF_OUTLINE* o = shape( a1, A( 2 ), A( 3 ), A( 4 ) );
            r = B->AddBoardOutline( o ); whole = true;
            if( !r ) delete o;
        }
        else if( c[0] == 'x' && c.size() == 2 )
        {
            IDF3_COMPONENT* p = B->FindComponent( W[1] );
            whole = true;
            if( c == "xn" )
            {
                p = new IDF3_COMPONENT( B );
                p->SetRefDes( W[1] );
                r = B->AddComponent( p );
                if( !r ) delete p;
            }
            else if( !p ) r = 0;
            else if( c == "xs" ) r = p->SetPosition( a2, A( 3 ), A( 4 ), (IDF_LAYER)A( 5 ) );
            else if( c == "xp" ) r = p->SetPlacement( (IDF_PLACEMENT)a2 );
            else if( c == "xd" ) r = p->AddDrill( a2 / 1000.0, A( 3 ), A( 4 ), PTH, "PIN", (KEY_OWNER)A( 5 ) ) != NULL;
            else if( c == "xr" ) r = B->DelComponent( p );
            else if( c == "xo" )
            {
                IDF3_COMP_OUTLINE* q = NULL;
                for( auto& z : B->GetComponentOutlines() ) if( W[2] == z.second->GetGeomName() && W[3] == z.second->GetPartName() ) q = z.second;
                if( q )
                {
                    IDF3_COMP_OUTLINE_DATA* d = new IDF3_COMP_OUTLINE_DATA( p, q, A( 4 ), A( 5 ), A( 6 ), A( 7 ) );
                    r = p->AddOutlineData( d );
                    if( !r ) delete d;
                }
            }
            else bad = true;
        }
        else if( c == "mk" )
        {
            IDF3_BOARD* p = A( 3 ) ? B : NULL;
            kind[a1] = a2;
            switch( a2 )
            {
            case 2: O[a1] = new OTHER_OUTLINE( p ); break;
            case 3: O[a1] = new ROUTE_OUTLINE( p ); break;
            case 4: O[a1] = new PLACE_OUTLINE( p ); break;
            case 5: O[a1] = new ROUTE_KO_OUTLINE( p ); break;
            case 6: O[a1] = new VIA_KO_OUTLINE( p ); break;
            case 7: O[a1] = new PLACE_KO_OUTLINE( p ); break;
            case 8: O[a1] = new GROUP_OUTLINE( p ); break;
            case 9: O[a1] = new IDF3_COMP_OUTLINE( p ); break;
            default: bad = true;
            }
            r = 1;
        }
        else if( c == "so" ) r = O[a1]->SetOwner( (KEY_OWNER)a2 );
        else if( c == "st" ) r = O[a1]->SetThickness( a2 / 1000.0 );
        else if( c == "bt" ) r = B->SetBoardThickness( a1 / 1000.0 );
        else if( c == "bth" ) { r = B->SetBoardThickness( a1 / 1000.0 ); whole = true; }
        else if( c == "bdh" ) { r = B->AddBoardDrill( a1 / 1000.0, a2, A( 3 ), PTH, "MTG", (KEY_OWNER)A( 4 ) ) != NULL; whole = true; }
        else if( c == "ss" )
        {
            IDF_LAYER l = (IDF_LAYER)a2;
            switch( kind[a1] )
            {
            case 2: case 6: r = ( (OTHER_OUTLINE*)O[a1] )->SetSide( l ); break;
            case 3: case 5: r = ( (ROUTE_OUTLINE*)O[a1] )->SetLayers( l ); break;
            case 4: case 7: r = ( (PLACE_OUTLINE*)O[a1] )->SetSide( l ); break;
            case 8: r = ( (GROUP_OUTLINE*)O[a1] )->SetSide( l ); break;
            default: bad = true;
            }
        }
        else if( c == "sn" ) r = kind[a1] == 8 ? ( (GROUP_OUTLINE*)O[a1] )->SetGroupName( nm ) : ( (OTHER_OUTLINE*)O[a1] )->SetOutlineIdentifier( nm );
        else if( c == "sh" ) r = ( (PLACE_OUTLINE*)O[a1] )->SetMaxHeight( a2 / 1000.0 );
        else if( c == "ao" )
        {
            if( !L.count( a2 ) ) L[a2] = rect( a2, a2, 1 );
            r = a1 == 1 ? B->AddBoardOutline( L[a2] ) : O[a1]->AddOutline( L[a2] );
        }
        else if( c == "dp" )
        {
            if( !L.count( a2 ) ) bad = true;
            else
            {
                r = a1 == 1 ? B->DelBoardOutline( L[a2] ) : O[a1]->DelOutline( L[a2] );
                if( L[a2]->size() != 4 ) r = 7;
            }
        }
        else if( c == "di" ) r = a1 == 1 ? B->DelBoardOutline( (size_t)a2 ) : O[a1]->DelOutline( (size_t)a2 );
        else if( c == "cl" ) r = O[a1]->Clear();
        else if( c == "as" ) r = B->AddSlot( 1, 3, 30, 5, 5 );
        else if( c == "ad" ) r = B->AddBoardDrill( a1 / 1000.0, a2, A( 3 ), PTH, "MTG", (KEY_OWNER)A( 4 ) ) != NULL;
        else if( c == "dd" ) r = B->DelBoardDrill( a1 / 1000.0, a2, A( 3 ) );
        else if( c == "nc" ) { C[a1] = new IDF3_COMPONENT( B ); cst[a1] = 1; r = C[a1]->SetRefDes( nm ); }
        else if( c == "ac" ) r = B->AddComponent( C[a1] );
        else if( c == "dc" ) r = B->DelComponent( C[a1] );
        else if( c == "dx" ) r = B->DelComponent( (size_t)a1 );
        else if( c == "cp" ) r = C[a1]->SetPlacement( (IDF_PLACEMENT)a2 );
        else if( c == "cs" ) r = C[a1]->SetPosition( a2, A( 3 ), A( 4 ), (IDF_LAYER)A( 5 ) );
        else if( c == "cr" ) r = C[a1]->SetRefDes( nm );
        else if( c == "ca" ) r = C[a1]->AddDrill( a2 / 1000.0, A( 3 ), A( 4 ), PTH, "PIN", (KEY_OWNER)A( 5 ) ) != NULL;
        else if( c == "cd" ) r = C[a1]->DelDrill( a2 / 1000.0, A( 3 ), A( 4 ) );
        else if( c == "cq" )
        {
            IDF_DRILL_DATA* d = NULL; int k = 0;
            for( auto* q : *C[a1]->GetDrills() ) if( k++ == a2 ) d = q;
            r = C[a1]->DelDrill( d );
        }
        else if( c == "co" ) r = C[a1]->AddOutlineData( new IDF3_COMP_OUTLINE_DATA( C[a1], NULL ) );
        else if( c == "cx" ) r = C[a1]->DeleteOutlineData( (size_t)a2 );
        else if( c == "cy" || c == "cf" || c == "cu" )
        {
            IDF3_COMP_OUTLINE_DATA* d = NULL; int k = 0;
            for( auto* q : *C[a1]->GetOutlinesData() ) if( k++ == a2 ) d = q;
            if( !d ) bad = true;
            else if( c == "cy" ) r = C[a1]->DeleteOutlineData( d );
            else if( c == "cf" ) r = d->SetOffsets( A( 3 ), A( 4 ), A( 5 ), A( 6 ) );
            else r = d->SetOutline( (IDF3_COMP_OUTLINE*)O[A( 3 )] );
        }
        else bad = true;
        if( bad ) { fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"BADOP\",\"r\":0}\n", sid.c_str(), step ); fflush( OUT ); continue; }
        fprintf( OUT, "{\"t\":%s,\"i\":%d,\"op\":\"%s\",\"a\":[", sid.c_str(), step, c.c_str() );
        for( size_t i = 1; i < W.size(); ++i ) fprintf( OUT, "%s%d", i > 1 ? "," : "", atoi( W[i].c_str() ) );
        fprintf( OUT, "],\"r\":%ld%s}\n", r, whole ? dumpB().c_str() : dumpO().c_str() ); fflush( OUT );
    }
    fclose( OUT );
    return 0;
}
