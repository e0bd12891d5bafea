/* Runs a script of operations on vector lists, belief lists, sparse matrices and an associative array; prints every result and all
   the state it changes. Standard input: "S states" then one operation per line. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mdp.h"
#include "global.h"
#include "common.h"
#include "params.h"
#include "alpha.h"
#include "belief.h"
#include "associative-array.h"
#include "sparse-matrix.h"

#define EPS 1e-9
extern int countEntriesInIMatrix( I_Matrix i_matrix );
static AlphaList reg[4];
static BeliefList bel;
static I_Matrix im;
static AssocArray aa;

static double num( void ) { double v; if( scanf( "%lf", &v ) != 1 ) exit( 4 ); return v; }
static double *vec( void ) { int i; double *v = newAlpha(); for( i = 0; i < gNumStates; i++ ) v[i] = num(); return v; }

static int pos( AlphaList l, AlphaList n ) {
  int k = 0;
  AlphaList p;
  if( n == NULL ) return -1;
  for( p = l->head; p != NULL; p = p->next, k++ ) if( p == n ) return k;
  return -2;
}

static void node( AlphaList p ) {
  int i;
  printf( " (%d %d %d", p->action, p->id, p->mark );
  for( i = 0; i < gNumStates; i++ ) printf( " %.10g", p->alpha[i] );
  if( p->witness != NULL ) { printf( " w" ); for( i = 0; i < gNumStates; i++ ) printf( " %.10g", p->witness[i] ); }
  printf( ")" );
}

static void show( int r ) {
  AlphaList p, last = NULL;
  int k = 0;
  printf( " <%d %d:", r, reg[r]->length );
  for( p = reg[r]->head; p != NULL; p = p->next ) { node( p ); last = p; k++; }
  printf( "%s%s>", reg[r]->tail == last ? "" : " bad-tail", k == reg[r]->length ? "" : " bad-length" );
}

static void gone( AlphaList n ) {
  if( n == NULL ) { printf( " NULL" ); return; }
  node( n );
  if( n->next != NULL ) printf( " still-linked" );
  destroyAlphaNode( n );
}

int main( void ) {
  char op[32], key[64], val[64];
  int r, s, i, k;
  double *v, d, x;
  AlphaList n;
  BeliefList b;

  gStdErrFile = stderr;
  gNumObservations = 2;
  gNumActions = 8;
  if( scanf( "S %d", &gNumStates ) != 1 ) return 4;
  for( r = 0; r < 4; r++ ) reg[r] = newAlphaList();
  aa = AA_new( 6, 64 );
  while( scanf( "%31s", op ) == 1 ) {
    printf( "%s", op );
#define IS(X) ( strcmp( op, X ) == 0 )
    if( IS( "append" ) ) { r = num(); k = num(); n = appendAlphaList( reg[r], vec(), k ); printf( " %d", pos( reg[r], n ) ); show( r ); }
    else if( IS( "prepend" ) ) { r = num(); k = num(); n = prependAlphaList( reg[r], vec(), k ); printf( " %d", pos( reg[r], n ) ); show( r ); }
    else if( IS( "unique" ) ) {
      r = num(); k = num(); v = vec(); n = appendUniqueAlphaList( reg[r], v, k, EPS ); printf( " %d", pos( reg[r], n ) ); show( r );
      if( n == NULL ) destroyAlpha( v );
    }
    else if( IS( "witness" ) ) { r = num(); k = num(); v = vec(); for( n = reg[r]->head; k > 0; k-- ) n = n->next; addWitnessToAlphaNode( n, v ); destroyAlpha( v ); show( r ); }
    else if( IS( "mark" ) ) { r = num(); k = num(); for( n = reg[r]->head; k > 0; k-- ) n = n->next; n->mark = TRUE; show( r ); }
    else if( IS( "dequeue" ) ) { r = num(); gone( dequeueAlphaNode( reg[r] )); show( r ); }
    else if( IS( "move" ) ) { r = num(); s = num(); n = dequeueAlphaNode( reg[r] ); if( n != NULL ) enqueueAlphaNode( reg[s], n ); show( r ); show( s ); }
    else if( IS( "extract" ) ) { r = num(); v = vec(); gone( extractFromAlphaList( reg[r], v, EPS )); destroyAlpha( v ); show( r ); }
    else if( IS( "extractnode" ) ) { r = num(); k = num(); for( n = reg[r]->head; k > 0; k-- ) n = n->next; gone( extractAlphaNode( reg[r], n )); show( r ); }
    else if( IS( "remove" ) ) { r = num(); v = vec(); printf( " %d", removeFromAlphaList( reg[r], v, EPS )); destroyAlpha( v ); show( r ); }
    else if( IS( "removebest" ) ) { r = num(); v = vec(); gone( removebestVectorNode( reg[r], v, EPS )); destroyAlpha( v ); show( r ); }
    else if( IS( "best" ) ) { r = num(); v = vec(); n = bestVector( reg[r], v, &d, EPS ); printf( " %d", pos( reg[r], n )); if( n ) printf( " %.10g", d ); destroyAlpha( v ); }
    else if( IS( "bestprimed" ) ) { r = num(); x = num(); v = vec(); n = bestVectorPrimed( reg[r], v, &d, x, EPS ); printf( " %d %.10g", pos( reg[r], n ), d ); destroyAlpha( v ); }
    else if( IS( "find" ) ) { r = num(); v = vec(); printf( " %d %d", pos( reg[r], findAlphaVector( reg[r], v, EPS )), queryAlphaList( reg[r], v, EPS )); destroyAlpha( v ); }
    else if( IS( "dominated" ) ) { r = num(); v = vec(); printf( " %d", dominatedAlphaList( v, reg[r] )); destroyAlpha( v ); }
    else if( IS( "markdom" ) ) { r = num(); v = vec(); printf( " %d", markDominatedAlphaList( v, reg[r] )); destroyAlpha( v ); show( r ); }
    else if( IS( "removedom" ) ) { r = num(); v = vec(); printf( " %d", removeDominatedAlphaList( v, reg[r] )); destroyAlpha( v ); show( r ); }
    else if( IS( "markall" ) ) { r = num(); markAllAlphaList( reg[r] ); show( r ); }
    else if( IS( "clearmark" ) ) { r = num(); clearMarkAlphaList( reg[r] ); show( r ); }
    else if( IS( "unmarked" ) ) { r = num(); printf( " %d %d %d", sizeUnmarkedAlphaList( reg[r] ), allMarkedAlphaList( reg[r] ), pos( reg[r], findUnmarkedVector( reg[r] ))); }
    else if( IS( "extractunmarked" ) ) { r = num(); gone( extractUnmarkedVector( reg[r] )); show( r ); }
    else if( IS( "extractmarked" ) ) { r = num(); s = num(); n = extractMarkedAlphaList( reg[r] ); destroyAlphaList( reg[s] ); reg[s] = n; show( r ); show( s ); }
    else if( IS( "removemarked" ) ) { r = num(); printf( " %d", removeMarkedAlphaList( reg[r] )); show( r ); }
    else if( IS( "sort" ) ) { r = num(); sortAlphaList( reg[r] ); show( r ); }
    else if( IS( "renumber" ) ) { r = num(); renumberAlphaList( reg[r] ); show( r ); }
    else if( IS( "clear" ) ) { r = num(); clearAlphaList( reg[r] ); show( r ); }
    else if( IS( "duplicate" ) ) { r = num(); s = num(); destroyAlphaList( reg[s] ); reg[s] = duplicateAlphaList( reg[r] ); show( r ); show( s ); }
    else if( IS( "dupwitness" ) ) { r = num(); s = num(); destroyAlphaList( reg[s] ); reg[s] = duplicateAlphaListWithWitnesses( reg[r] ); show( r ); show( s ); }
    else if( IS( "dupnode" ) ) { r = num(); k = num(); s = num(); for( n = reg[r]->head; k > 0; k-- ) n = n->next; appendDuplicateNodeToAlphaList( reg[s], n ); show( r ); show( s ); }
    else if( IS( "union" ) ) { r = num(); s = num(); if( reg[s]->length == 0 ) { unionTwoAlphaLists( reg[r], reg[s] ); show( r ); } else { unionTwoAlphaLists( reg[r], reg[s] ); reg[s] = newAlphaList(); show( r ); show( s ); } }
    else if( IS( "same" ) ) { r = num(); s = num(); printf( " %d %d", sameAlphaList( reg[r], reg[s], EPS ), similarAlphaList( reg[r], reg[s], EPS )); }
    else if( IS( "maxsize" ) ) printf( " %d", maxSizeAlphaLists( reg, 4 ));
    else if( IS( "lexi" ) ) { double *w; v = vec(); w = vec(); printf( " %d %d %d %d %d", isLexicographicallyBetterAlpha( v, w, EPS ), isDominatedVector( v, w ), sameAlpha( v, w, EPS ), isZeroAlpha( v, EPS ), sameAlpha( NULL, v, EPS )); destroyAlpha( v ); destroyAlpha( w ); }
    else if( IS( "bappend" ) || IS( "bprepend" ) ) {
      v = vec();
      bel = IS( "bappend" ) ? appendBeliefList( bel, v ) : prependBeliefList( bel, v );
      v[0] = 99; destroyAlpha( v );
      printf( " %d", sizeBeliefList( bel ));
      for( b = bel; b != NULL; b = b->next ) { printf( " (" ); for( i = 0; i < gNumStates; i++ ) printf( " %.10g", b->b[i] ); printf( ")" ); }
    }
    else if( IS( "bfind" ) ) { v = vec(); b = findBeliefState( bel, v, EPS ); for( k = 0; b != NULL && bel != NULL; k++ ) { BeliefList q = bel; for( i = 0; i < k; i++ ) q = q->next; if( q == b ) break; } printf( " %d", b == NULL ? -1 : k ); destroyAlpha( v ); }
    else if( IS( "bclear" ) ) { destroyBeliefList( bel ); bel = NULL; }
    else if( IS( "mnew" ) ) { if( im != NULL ) destroyIMatrix( im ); im = newIMatrix( (int) num() ); }
    else if( IS( "mset" ) || IS( "madd" ) ) {
      int col; r = num(); col = num(); x = num();
      IS( "mset" ) ? addEntryToIMatrix( im, r, col, x ) : accumulateEntryInIMatrix( im, r, col, x );
      printf( " %d %.10g", countEntriesInIMatrix( im ), sumIMatrixRowValues( im, r ));
    }
    else if( IS( "mshow" ) ) {
      int cols = num();
      Matrix m = transformIMatrix( im );
      for( r = 0; r < m->num_rows; r++ ) {
        printf( " [%d %.10g:", m->row_length[r], sumRowValues( m, r ));
        for( i = m->row_start[r]; i < m->row_start[r] + m->row_length[r]; i++ ) printf( " %d=%.10g", m->col[i], m->mat_val[i] );
        printf( " |" );
        for( i = 0; i < cols; i++ ) printf( " %.10g", getEntryMatrix( m, r, i ));
        printf( "]" );
      }
      destroyMatrix( m );
    }
    else if( IS( "put" ) ) { scanf( "%63s %63s", key, val ); k = AA_put( aa, key, val ); printf( " %d %d", k, AA_size( aa )); }
    else if( IS( "get" ) ) { scanf( "%63s", key ); printf( " %s", AA_get( aa, key ) ? AA_get( aa, key ) : "NULL" ); }
    else return 5;
    printf( "\n" );
    fflush( stdout );
  }
  for( r = 0; r < 4; r++ ) destroyAlphaList( reg[r] );
  destroyBeliefList( bel );
  if( im != NULL ) destroyIMatrix( im );
  AA_delete( aa );
  return 0;
}
