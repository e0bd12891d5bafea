/* libFuzzer target: any bytes as an alpha, policy graph, belief or configuration file (FUZZ_KIND) for the reader. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <setjmp.h>
#include "global.h"
#include "mdp.h"
#include "pomdp.h"
#include "alpha.h"
#include "belief.h"
#include "pg.h"
#include "config-file.h"

static jmp_buf out;
static int inside;
static unsigned long n_run, n_accept, n_exit, n_skip;
static char name[64], kind;
static FILE *sink;

void __real_exit( int );
void __wrap_exit( int rc ) { if( inside ) longjmp( out, 1 ); __real_exit( rc ); }

static void counts( void ) {
  char *f = getenv( "FUZZ_COUNTS" );
  FILE *file = f ? fopen( f, "w" ) : NULL;
  if( file ) { fprintf( file, "%lu %lu %lu %lu\n", n_run, n_accept, n_exit, n_skip ); fclose( file ); }
  unlink( name );
}

int LLVMFuzzerInitialize( int *argc, char ***argv ) {
  int a, z;
  char *k = getenv( "FUZZ_KIND" );
  atexit( counts );
  kind = k && *k ? k[0] : 'a';
  snprintf( name, sizeof( name ), "in.%d", (int) getpid());
  sink = fopen( "/dev/null", "w" );
  gStdErrFile = sink;
  gNumStates = 3;
  gNumActions = 2;
  gNumObservations = 2;
  gObservationPossible = (int **) malloc( 2 * sizeof( int * ));
  for( a = 0; a < 2; a++ ) {
    gObservationPossible[a] = (int *) malloc( 2 * sizeof( int ));
    for( z = 0; z < 2; z++ ) gObservationPossible[a][z] = !( a == 1 && z == 1 );
  }
  return 0;
}

static void must( int ok, const char *what ) {
  if( ! ok ) { fprintf( stderr, "PROPERTY: %s\n", what ); abort(); }
}

int LLVMFuzzerTestOneInput( const uint8_t *data, size_t size ) {
  FILE *f;
  n_run++;
  f = fopen( name, "w" );
  fwrite( data, 1, size, f );
  fclose( f );
  if( setjmp( out ) == 0 ) {
    inside = 1;
    if( kind == 'a' ) {
      AlphaList l = readAlphaList( name, -1 );
      if( l ) {
        n_accept++;
        must( sizeAlphaList( l ) > 0, "empty list" );
        sortAlphaList( l );
        writeAlphaList( sink, l );
        destroyAlphaList( l );
      }
    }
    else if( kind == 'b' ) {
      BeliefList l = readBeliefList( name, -1 );
      if( l ) { n_accept++; writeBeliefList( sink, l ); destroyBeliefList( l ); }
    }
    else if( kind == 'p' ) {
      LinkedPG l = LPG_read( name, size % 2 );
      if( l ) {
        n_accept++;
        must( LPG_size( l ) > 0, "empty graph" );
        if( size % 2 && LPG_verify( l )) { PG p = PG_convertLPGToPG( l ); PG_printf( p, sink ); PG_Destructor( p ); }
        LPG_destroy( l );
      }
    }
    else {
      ConfigFile c = CF_read( name );
      if( c ) { n_accept++; CF_fprintf( c, sink ); CF_delete( c ); }
    }
    inside = 0;
  }
  else { inside = 0; n_exit++; }
  return 0;
}
