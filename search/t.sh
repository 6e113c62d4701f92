for p in "$@"; do timeout 100 /opt/venv/bin/python /verif/search/run.py C$p --seconds ${T:-6} --seed ${S:-1} | python3 -c "
import json,sys; d=json.load(sys.stdin); print('C$p',d['cases'],d['distinct'],d['by'],d['complete'],round(d['wall'],1)); v=d['violation']
if v: print(v['harness'],v['case'],v['message']); print('\n'.join(v['steps'][-14:])); print(v['traceback'][-700:])"; done
