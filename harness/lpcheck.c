/* Solves linear programs through the project's LP interface, and region questions through findRegionPoint.
   Standard input, any number of:
     L rows cols nonzeroes maximise  obj[cols]  low[cols] up[cols] (1e30: none)  (sense rhs)[rows]  per column: count (row value)[count]
     R states vectors epsilon alpha[states] (vector[states])[vectors]
   One line of output for each. */
#include <stdio.h>
#include <stdlib.h>
#include "mdp.h"
#include "global.h"
#include "params.h"
#include "alpha.h"
#include "lp-interface.h"
#include "region.h"

extern int gLpSolveInstabilityCount;
extern PomdpSolveParams newPomdpSolveParams( );

static double num( void ) { double v; if( scanf( "%lf", &v ) != 1 ) exit( 4 ); return v; }

int main( void ) {
  char kind[4], sense[4];
  int i, j, n, m, k, nz, was, st;
  PomdpSolveParams param;

  gStdErrFile = stderr;
  gNumActions = gNumObservations = 1;
  param = newPomdpSolveParams();
  initLpInterface( param );
  while( scanf( "%3s", kind ) == 1 ) {
    was = gLpSolveInstabilityCount;
    if( kind[0] == 'L' ) {
      LP lp;
      m = num(); n = num(); nz = num();
      lp = LP_newLP( m, n, nz );
      lp->objsen = num() ? MAXIMIZE : MINIMIZE;
      for( i = 0; i < n; i++ ) lp->obj[i] = num();
      for( i = 0; i < n; i++ ) { double u; lp->lowbnd[i] = num(); u = num(); lp->upbnd[i] = u >= 1e30 ? INFBOUND : u; }
      for( i = 0; i < m; i++ ) { scanf( "%3s", sense ); lp->sense[i] = sense[0]; lp->rhs[i] = num(); }
      for( i = k = 0; i < n; i++ ) {
        lp->matbeg[i] = k;
        lp->matcnt[i] = num();
        for( j = 0; j < lp->matcnt[i]; j++, k++ ) { lp->matind[k] = num(); lp->matval[k] = num(); }
      }
      st = LP_solveLP( lp, NULL );
      printf( "L %s %d", st == LP_OPTIMAL ? "optimal" : st == LP_INFEASIBLE ? "infeasible" : st == LP_UNBOUNDED ? "unbounded" : "?",
              gLpSolveInstabilityCount - was );
      if( st == LP_OPTIMAL ) {
        printf( " %.17g", lp->objval );
        for( i = 0; i < n; i++ ) printf( " %.17g", lp->x[i] );
      }
      printf( "\n" );
      LP_freeLP( lp );
    } else {
      double *a, *w, diff = -7;
      AlphaList list = newAlphaList();
      gNumStates = num(); m = num();
      param->epsilon = num();
      a = newAlpha(); w = newAlpha();
      for( i = 0; i < gNumStates; i++ ) { a[i] = num(); w[i] = -7; }
      for( j = 0; j < m; j++ ) {
        double *v = newAlpha();
        for( i = 0; i < gNumStates; i++ ) v[i] = num();
        appendAlphaList( list, v, 0 );
      }
      st = findRegionPoint( a, list, w, &diff, param );
      printf( "R %d %d %.17g", st, gLpSolveInstabilityCount - was, diff );
      for( i = 0; i < gNumStates; i++ ) printf( " %.17g", w[i] );
      printf( "\n" );
      destroyAlphaList( list );
      free( a ); free( w );
    }
    fflush( stdout );
  }
  return 0;
}
