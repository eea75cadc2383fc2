#!/bin/bash
# run one model:  mc.sh MODULE [CFG] [workers]
cd /verif/harness && exec /opt/venv/bin/python -c "
import sys,vlib,time
t=time.time()
c,o,g,d=vlib.run_tlc(sys.argv[1], sys.argv[2] if len(sys.argv)>2 and sys.argv[2] else None, workers=int(sys.argv[3]) if len(sys.argv)>3 else 8)
print(o[-3000:] if c else ''); print(sys.argv[1:], 'code',c,'gen',g,'dist',d,round(time.time()-t,1),'s')" "$@"
