"""setup: check that the tool chain is there and that the verifier accepts a correct and rejects a wrong contract"""
import sys, os, subprocess, tempfile, shutil
from irv import check
SRC = r'''
#include <utility>
#include <vector>
#include "irv.h"
IRV_HARNESS( T_good ) { double a = irv_real( "a" ) , s = 0; long n = irv_nat( "n" , 0 , 9 ); for( long i = 0 ; i < n ; ++i ) s += a; irv_assert( irv_eq( s , n * a ) , "sum" ); irv_cover( "end" ); }
IRV_HARNESS( T_bad ) { double a = irv_real( "a" ) , s = 0; long n = irv_nat( "n" , 0 , 9 ); for( long i = 0 ; i <= n ; ++i ) s += a; irv_assert( irv_eq( s , n * a ) , "sum" ); irv_cover( "end" ); }
'''
def main():
    for t in ('clang++-18', 'opt-18', 'g++'):
        if shutil.which(t) is None: print('missing', t); return 1
    d = tempfile.mkdtemp(prefix='irv_self_')
    try:
        f = os.path.join(d, 't.cpp'); open(f, 'w').write(SRC)
        for c in ([check.CXX] + check.BASE + check.IRFLAGS + [f, '-o', d + '/t.0.bc'], ['opt-18', '-passes=' + check.PASSES, d + '/t.0.bc', '-o', d + '/t.bc']):
            r = check.sh(c)
            if r.returncode: print(r.stdout); return 1
        g = check.run_unit((d + '/t.bc', 'H_T_good', {})); b = check.run_unit((d + '/t.bc', 'H_T_bad', {}))
        ok = not g['error'] and all(o['ok'] == o['n'] for o in g['obl'].values()) and any(o['fail'] for o in b['obl'].values())
        print('selftest', 'ok' if ok else 'FAILED'); return 0 if ok else 1
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
