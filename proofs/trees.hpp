// rooted trees up to order 8 (generated by enumeration): order, number of children, children
#ifndef TREES_HPP
#define TREES_HPP
static const int N_TREES = 200;
static const int TREE[200][9] = {
{1,0,0,0,0,0,0,0,0},
{2,1,0,0,0,0,0,0,0},
{3,1,1,0,0,0,0,0,0},
{3,2,0,0,0,0,0,0,0},
{4,1,3,0,0,0,0,0,0},
{4,1,2,0,0,0,0,0,0},
{4,2,1,0,0,0,0,0,0},
{4,3,0,0,0,0,0,0,0},
{5,1,7,0,0,0,0,0,0},
{5,1,6,0,0,0,0,0,0},
{5,1,5,0,0,0,0,0,0},
{5,1,4,0,0,0,0,0,0},
{5,2,3,0,0,0,0,0,0},
{5,2,2,0,0,0,0,0,0},
{5,2,1,1,0,0,0,0,0},
{5,3,1,0,0,0,0,0,0},
{5,4,0,0,0,0,0,0,0},
{6,1,16,0,0,0,0,0,0},
{6,1,15,0,0,0,0,0,0},
{6,1,14,0,0,0,0,0,0},
{6,1,13,0,0,0,0,0,0},
{6,1,12,0,0,0,0,0,0},
{6,1,11,0,0,0,0,0,0},
{6,1,10,0,0,0,0,0,0},
{6,1,9,0,0,0,0,0,0},
{6,1,8,0,0,0,0,0,0},
{6,2,7,0,0,0,0,0,0},
{6,2,6,0,0,0,0,0,0},
{6,2,5,0,0,0,0,0,0},
{6,2,4,0,0,0,0,0,0},
{6,2,3,1,0,0,0,0,0},
{6,3,3,0,0,0,0,0,0},
{6,2,2,1,0,0,0,0,0},
{6,3,2,0,0,0,0,0,0},
{6,3,1,1,0,0,0,0,0},
{6,4,1,0,0,0,0,0,0},
{6,5,0,0,0,0,0,0,0},
{7,1,36,0,0,0,0,0,0},
{7,1,35,0,0,0,0,0,0},
{7,1,34,0,0,0,0,0,0},
{7,1,33,0,0,0,0,0,0},
{7,1,32,0,0,0,0,0,0},
{7,1,31,0,0,0,0,0,0},
{7,1,30,0,0,0,0,0,0},
{7,1,29,0,0,0,0,0,0},
{7,1,28,0,0,0,0,0,0},
{7,1,27,0,0,0,0,0,0},
{7,1,26,0,0,0,0,0,0},
{7,1,25,0,0,0,0,0,0},
{7,1,24,0,0,0,0,0,0},
{7,1,23,0,0,0,0,0,0},
{7,1,22,0,0,0,0,0,0},
{7,1,21,0,0,0,0,0,0},
{7,1,20,0,0,0,0,0,0},
{7,1,19,0,0,0,0,0,0},
{7,1,18,0,0,0,0,0,0},
{7,1,17,0,0,0,0,0,0},
{7,2,16,0,0,0,0,0,0},
{7,2,15,0,0,0,0,0,0},
{7,2,14,0,0,0,0,0,0},
{7,2,13,0,0,0,0,0,0},
{7,2,12,0,0,0,0,0,0},
{7,2,11,0,0,0,0,0,0},
{7,2,10,0,0,0,0,0,0},
{7,2,9,0,0,0,0,0,0},
{7,2,8,0,0,0,0,0,0},
{7,2,7,1,0,0,0,0,0},
{7,3,7,0,0,0,0,0,0},
{7,2,6,1,0,0,0,0,0},
{7,3,6,0,0,0,0,0,0},
{7,2,5,1,0,0,0,0,0},
{7,3,5,0,0,0,0,0,0},
{7,2,4,1,0,0,0,0,0},
{7,3,4,0,0,0,0,0,0},
{7,2,3,3,0,0,0,0,0},
{7,2,3,2,0,0,0,0,0},
{7,3,3,1,0,0,0,0,0},
{7,4,3,0,0,0,0,0,0},
{7,2,2,2,0,0,0,0,0},
{7,3,2,1,0,0,0,0,0},
{7,4,2,0,0,0,0,0,0},
{7,3,1,1,1,0,0,0,0},
{7,4,1,1,0,0,0,0,0},
{7,5,1,0,0,0,0,0,0},
{7,6,0,0,0,0,0,0,0},
{8,1,84,0,0,0,0,0,0},
{8,1,83,0,0,0,0,0,0},
{8,1,82,0,0,0,0,0,0},
{8,1,81,0,0,0,0,0,0},
{8,1,80,0,0,0,0,0,0},
{8,1,79,0,0,0,0,0,0},
{8,1,78,0,0,0,0,0,0},
{8,1,77,0,0,0,0,0,0},
{8,1,76,0,0,0,0,0,0},
{8,1,75,0,0,0,0,0,0},
{8,1,74,0,0,0,0,0,0},
{8,1,73,0,0,0,0,0,0},
{8,1,72,0,0,0,0,0,0},
{8,1,71,0,0,0,0,0,0},
{8,1,70,0,0,0,0,0,0},
{8,1,69,0,0,0,0,0,0},
{8,1,68,0,0,0,0,0,0},
{8,1,67,0,0,0,0,0,0},
{8,1,66,0,0,0,0,0,0},
{8,1,65,0,0,0,0,0,0},
{8,1,64,0,0,0,0,0,0},
{8,1,63,0,0,0,0,0,0},
{8,1,62,0,0,0,0,0,0},
{8,1,61,0,0,0,0,0,0},
{8,1,60,0,0,0,0,0,0},
{8,1,59,0,0,0,0,0,0},
{8,1,58,0,0,0,0,0,0},
{8,1,57,0,0,0,0,0,0},
{8,1,56,0,0,0,0,0,0},
{8,1,55,0,0,0,0,0,0},
{8,1,54,0,0,0,0,0,0},
{8,1,53,0,0,0,0,0,0},
{8,1,52,0,0,0,0,0,0},
{8,1,51,0,0,0,0,0,0},
{8,1,50,0,0,0,0,0,0},
{8,1,49,0,0,0,0,0,0},
{8,1,48,0,0,0,0,0,0},
{8,1,47,0,0,0,0,0,0},
{8,1,46,0,0,0,0,0,0},
{8,1,45,0,0,0,0,0,0},
{8,1,44,0,0,0,0,0,0},
{8,1,43,0,0,0,0,0,0},
{8,1,42,0,0,0,0,0,0},
{8,1,41,0,0,0,0,0,0},
{8,1,40,0,0,0,0,0,0},
{8,1,39,0,0,0,0,0,0},
{8,1,38,0,0,0,0,0,0},
{8,1,37,0,0,0,0,0,0},
{8,2,36,0,0,0,0,0,0},
{8,2,35,0,0,0,0,0,0},
{8,2,34,0,0,0,0,0,0},
{8,2,33,0,0,0,0,0,0},
{8,2,32,0,0,0,0,0,0},
{8,2,31,0,0,0,0,0,0},
{8,2,30,0,0,0,0,0,0},
{8,2,29,0,0,0,0,0,0},
{8,2,28,0,0,0,0,0,0},
{8,2,27,0,0,0,0,0,0},
{8,2,26,0,0,0,0,0,0},
{8,2,25,0,0,0,0,0,0},
{8,2,24,0,0,0,0,0,0},
{8,2,23,0,0,0,0,0,0},
{8,2,22,0,0,0,0,0,0},
{8,2,21,0,0,0,0,0,0},
{8,2,20,0,0,0,0,0,0},
{8,2,19,0,0,0,0,0,0},
{8,2,18,0,0,0,0,0,0},
{8,2,17,0,0,0,0,0,0},
{8,2,16,1,0,0,0,0,0},
{8,3,16,0,0,0,0,0,0},
{8,2,15,1,0,0,0,0,0},
{8,3,15,0,0,0,0,0,0},
{8,2,14,1,0,0,0,0,0},
{8,3,14,0,0,0,0,0,0},
{8,2,13,1,0,0,0,0,0},
{8,3,13,0,0,0,0,0,0},
{8,2,12,1,0,0,0,0,0},
{8,3,12,0,0,0,0,0,0},
{8,2,11,1,0,0,0,0,0},
{8,3,11,0,0,0,0,0,0},
{8,2,10,1,0,0,0,0,0},
{8,3,10,0,0,0,0,0,0},
{8,2,9,1,0,0,0,0,0},
{8,3,9,0,0,0,0,0,0},
{8,2,8,1,0,0,0,0,0},
{8,3,8,0,0,0,0,0,0},
{8,2,7,3,0,0,0,0,0},
{8,2,7,2,0,0,0,0,0},
{8,3,7,1,0,0,0,0,0},
{8,4,7,0,0,0,0,0,0},
{8,2,6,3,0,0,0,0,0},
{8,2,6,2,0,0,0,0,0},
{8,3,6,1,0,0,0,0,0},
{8,4,6,0,0,0,0,0,0},
{8,2,5,3,0,0,0,0,0},
{8,2,5,2,0,0,0,0,0},
{8,3,5,1,0,0,0,0,0},
{8,4,5,0,0,0,0,0,0},
{8,2,4,3,0,0,0,0,0},
{8,2,4,2,0,0,0,0,0},
{8,3,4,1,0,0,0,0,0},
{8,4,4,0,0,0,0,0,0},
{8,3,3,3,0,0,0,0,0},
{8,3,3,2,0,0,0,0,0},
{8,3,3,1,1,0,0,0,0},
{8,4,3,1,0,0,0,0,0},
{8,5,3,0,0,0,0,0,0},
{8,3,2,2,0,0,0,0,0},
{8,3,2,1,1,0,0,0,0},
{8,4,2,1,0,0,0,0,0},
{8,5,2,0,0,0,0,0,0},
{8,4,1,1,1,0,0,0,0},
{8,5,1,1,0,0,0,0,0},
{8,6,1,0,0,0,0,0,0},
{8,7,0,0,0,0,0,0,0},
};
// order conditions of the tableau (A,b) with s stages: sum_i b_i phi_i(tau) = 1/gamma(tau) for every tree up to the given order
static const int MAXS = 24;
struct Tableau { int s; double A[MAXS][MAXS]; double b[MAXS]; double e[MAXS]; };
static double tr_phi[N_TREES][MAXS] , tr_g[N_TREES][MAXS] , tr_gamma[N_TREES];
static void tree_weights( const Tableau &tb , int order )
{
    for( int t = 0 ; t < N_TREES && TREE[t][0] <= order ; ++t )
    {
        tr_gamma[t] = TREE[t][0];
        for( int i = 0 ; i < tb.s ; ++i ) tr_phi[t][i] = 1.0;
        for( int c = 0 ; c < TREE[t][1] ; ++c )
        {
            int ch = TREE[t][2+c]; tr_gamma[t] *= tr_gamma[ch];
            for( int i = 0 ; i < tb.s ; ++i ) tr_phi[t][i] *= tr_g[ch][i];
        }
        for( int i = 0 ; i < tb.s ; ++i ) { double g = 0; for( int j = 0 ; j < i ; ++j ) g += tb.A[i][j] * tr_phi[t][j]; tr_g[t][i] = g; }
    }
}
// does the quadrature b have the given order (tree_weights called before)?
static bool order_holds( const Tableau &tb , const double *b , int order , int from = 1 )
{
    for( int t = 0 ; t < N_TREES && TREE[t][0] <= order ; ++t )
    {
        if( TREE[t][0] < from ) continue;
        double w = 0; for( int i = 0 ; i < tb.s ; ++i ) w += b[i] * tr_phi[t][i];
        if( !irv_eq( w * tr_gamma[t] , 1.0 ) ) return false;
    }
    return true;
}
// continuous extension: sum_i b_i(theta) phi_i(tau) = theta^order(tau)/gamma(tau)
static bool order_holds_at( const Tableau &tb , const double *b , int order , double th )
{
    bool r = true;
    for( int t = 0 ; t < N_TREES && TREE[t][0] <= order ; ++t )
    {
        double w = 0 , p = 1; for( int i = 0 ; i < tb.s ; ++i ) w += b[i] * tr_phi[t][i]; for( int i = 0 ; i < TREE[t][0] ; ++i ) p *= th;
        r = r & irv_eq( w * tr_gamma[t] , p );
    }
    return r;
}
#endif
