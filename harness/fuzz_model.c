/* libFuzzer target: any bytes as a model file for the parser.  What is accepted must be a well-formed model.
   Failures are judged again by the real programs on the input as a file. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ctype.h>
#include <setjmp.h>
#include "mdp-common.h"
#include "mdp.h"
#include "sparse-matrix.h"
#include "imm-reward.h"

extern int readMDPFile( FILE *file );
extern void yyrestart( FILE *file );
extern I_Matrix *IP;
extern I_Matrix gCurIMatrix;
extern Imm_Reward_List gCurImmRewardNode;

static jmp_buf out;
static int inside;
static unsigned long n_run, n_accept, n_exit, n_skip;

void __real_exit( int );
void __wrap_exit( int rc ) { if( inside ) longjmp( out, 1 ); __real_exit( rc ); }

static void counts( void ) {
  char *f = getenv( "FUZZ_COUNTS" );
  FILE *file = f ? fopen( f, "w" ) : NULL;
  if( file ) { fprintf( file, "%lu %lu %lu %lu\n", n_run, n_accept, n_exit, n_skip ); fclose( file ); }
}
int LLVMFuzzerInitialize( int *argc, char ***argv ) { atexit( counts ); return 0; }

/* sizes above 12 before the first T, O or R statement only cost time */
static int too_big( const uint8_t *d, size_t n ) {
  size_t i, j, k;
  for( i = 0; i < n; i++ ) {
    if( d[i] == '#' ) { while( i < n && d[i] != '\n' ) i++; continue; }
    if( strchr( "TOR", d[i] ) && d[i] && ( i == 0 || !( isalnum( d[i-1] ) || strchr( "-_", d[i-1] )))) {
      for( j = i + 1; j < n && isspace( d[j] ); j++ ) ;
      if( j < n && d[j] == ':' ) return 0;
    }
    if( isdigit( d[i] )) {
      for( j = i; j < n && d[j] == '0'; j++ ) ;
      for( k = j; k < n && isdigit( d[k] ); k++ ) ;
      if( !( i > 1 && d[i-1] == '.' && isdigit( d[i-2] )) && ( k - j > 2 || ( k - j == 2 && ( d[j] > '1' || d[j+1] > '2' )))) return 1;
      i = ( k > i ) ? k - 1 : i;
    }
  }
  return 0;
}

static void must( int ok, const char *what ) {
  if( ! ok ) { fprintf( stderr, "PROPERTY: %s\n", what ); abort(); }
}

static void well_formed( void ) {
  int a, i, k;
  double s;
  must( gNumStates > 0 && gNumActions > 0, "sizes" );
  must( gDiscount >= 0 && gDiscount <= 1, "discount" );
  for( a = 0; a < gNumActions; a++ )
    for( i = 0; i < gNumStates; i++ ) {
      for( s = 0, k = P[a]->row_start[i]; k < P[a]->row_start[i] + P[a]->row_length[i]; k++ ) {
        must( P[a]->col[k] >= 0 && P[a]->col[k] < gNumStates && P[a]->mat_val[k] >= 0 && P[a]->mat_val[k] <= 1, "transition" );
        s += P[a]->mat_val[k];
      }
      must( s > 1 - 2e-5 && s < 1 + 2e-5, "transition sum" );
      if( gProblemType != POMDP_problem_type ) continue;
      for( s = 0, k = R[a]->row_start[i]; k < R[a]->row_start[i] + R[a]->row_length[i]; k++ ) {
        must( R[a]->col[k] >= 0 && R[a]->col[k] < gNumObservations && R[a]->mat_val[k] >= 0 && R[a]->mat_val[k] <= 1, "observation" );
        s += R[a]->mat_val[k];
      }
      must( s > 1 - 2e-5 && s < 1 + 2e-5, "observation sum" );
    }
  if( gProblemType == POMDP_problem_type ) {
    for( s = 0, i = 0; i < gNumStates; i++ ) {
      must( gInitialBelief[i] >= 0 && gInitialBelief[i] <= 1, "start" );
      s += gInitialBelief[i];
    }
    must( s > 1 - 2e-5 && s < 1 + 2e-5, "start sum" );
  }
}

int LLVMFuzzerTestOneInput( const uint8_t *data, size_t size ) {
  FILE *f;
  int ok;
  if( size == 0 || too_big( data, size )) { n_skip++; return 0; }
  n_run++;
  f = fmemopen( (void *) data, size, "r" );
  yyrestart( f );
  IP = NULL;
  gCurImmRewardNode = NULL;
  gCurIMatrix = NULL;
  if( setjmp( out ) == 0 ) {
    inside = 1;
    ok = readMDPFile( f );
    inside = 0;
    if( ok ) {
      n_accept++;
      well_formed();
      deallocateMDP();
    }
    else
      destroyImmRewards();    /* the program ends after a bad file and never frees the rest */
  }
  else { inside = 0; n_exit++; }
  fclose( f );
  return 0;
}

/* Half of the mutations work on lines and words, so that more inputs stay near the grammar. */
size_t LLVMFuzzerMutate( uint8_t *data, size_t size, size_t max );
static const char *words[] = { "0", "1", "2", "3", "0.5", "0.25", "1.0", "0.75", "*", ":", "uniform", "identity", "reset", "-1", "-", "+", "1e-7",
  "0.00001", "0.99999", "s0", "s1", "left", "o1", "a", "include", "exclude", "cost", "reward", "0.0", "7", "1.00001", "1e9", "T", "O", "R", "start" };
static const char *lines[] = { "T: 0 identity\n", "T: * uniform\n", "T: 0 : 0 uniform\n", "T: 0 : 0 : 0 1.0\n", "T: 1 : 1 reset\n", "T: * : * : * 0.5\n",
  "O: 0 uniform\n", "O: * : * : 0 1.0\n", "O: 0 : 1 uniform\n", "O: 1 : 0 : 1 0.5\n", "R: 0 : 0 : 0 : 0 4\n", "R: * : * : * 1\n", "R: 0 : 1 : * : * -2\n",
  "R: * : 0 : 1 1 2\n", "R: 0 : 0 1 2 3 4\n", "R: 0 : 0\n", "R: 1 1 2 3 4\n", "start: 0\n", "start: uniform\n", "start include: 0 1\n", "start exclude: 0\n", "# x\n",
  "T: 0\n1 0 0 1\n", "T: 0\n0.5 0.5 0.5 0.5\n", "O: 1\n1 0 0 1\n", "O: 0 : 0 1 0\n", "R: 1 : 1\n0 0 0 0\n" };

static size_t splice( uint8_t *d, size_t n, size_t max, size_t at, size_t drop, const void *ins, size_t k ) {
  uint8_t *c;
  if( at > n || drop > n - at || n - drop + k > max ) return n;
  c = (uint8_t *) malloc( k + 1 );
  memcpy( c, ins, k );
  memmove( d + at + k, d + at + drop, n - at - drop );
  memcpy( d + at, c, k );
  free( c );
  return n - drop + k;
}

size_t LLVMFuzzerCustomMutator( uint8_t *d, size_t n, size_t max, unsigned int seed ) {
  unsigned int r = seed / 7, times;
  size_t a, b, i, k;
  if( seed % 7 < 2 || n == 0 ) return LLVMFuzzerMutate( d, n, max );
  for( times = 1 + r % 3; times > 0 && n > 0; times-- ) {
    r = r * 1103515245u + 12345u;
    i = ( r >> 8 ) % n;
    if(( r >> 4 ) % 2 ) {                       /* a line */
      for( a = i; a > 0 && d[a-1] != '\n'; a-- ) ;
      for( b = i; b < n && d[b] != '\n'; b++ ) ;
      if( b < n ) b++;
      switch(( r >> 5 ) % 4 ) {
      case 0: n = splice( d, n, max, a, b - a, "", 0 ); break;
      case 1: n = splice( d, n, max, a, 0, d + a, b - a ); break;
      case 2: k = ( r >> 12 ) % ( sizeof( lines ) / sizeof( *lines ));
              n = splice( d, n, max, a, 0, lines[k], strlen( lines[k] )); break;
      default: k = ( r >> 12 ) % ( sizeof( lines ) / sizeof( *lines ));
              n = splice( d, n, max, n, 0, lines[k], strlen( lines[k] )); break;
      }
    }
    else {                                      /* a word */
      while( i < n && isspace( d[i] )) i++;
      if( i >= n ) continue;
      for( a = i; a > 0 && ! isspace( d[a-1] ); a-- ) ;
      for( b = i; b < n && ! isspace( d[b] ); b++ ) ;
      k = ( r >> 12 ) % ( sizeof( words ) / sizeof( *words ));
      switch(( r >> 5 ) % 4 ) {
      case 0: n = splice( d, n, max, a, b - a, "", 0 ); break;
      case 1: n = splice( d, n, max, b, 0, " 0.5", 4 ); break;
      default: n = splice( d, n, max, a, b - a, words[k], strlen( words[k] )); break;
      }
    }
  }
  return n;
}
