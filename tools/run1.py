"""debugging aid: run1.py PID [entry-regex] [-v N]   verify matching entries in this process, print what fails"""
import sys, os, re, time, tempfile, traceback, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc"))
import driver, props
args = [a for a in sys.argv[1:] if not a.startswith("-")]
V = int(os.environ.get("V", "1"))
P = props.PROPS[args[0]]
pat = args[1] if len(args) > 1 else ".*"
tmp = tempfile.mkdtemp()
try:
    for u in P['units']:
        if u.get('bison'):
            driver.gen_grammar(tmp)
            u = dict(u, cflags=u.get('cflags', []) + ["-iquote", tmp + "/gen"])
        if u.get('native_only'):
            continue
        src = open(os.path.join(driver.VERIF, "harness", u['src'])).read()
        ents = [e for e in re.findall(r"^ENTRY\s+(check_\w+)", src, re.M) if re.match(pat + "$", e)]
        if not ents:
            continue
        bc = driver.compile_ir(u, tmp)
        shutil.copy(bc, "/tmp/last.bc")
        for en in ents:
            o = driver.entry_opts(u, en)
            b = o.pop('budget', P.get('budget', 300))
            o.pop('thorough_only', None)
            o['verbose'] = V
            r = driver.verify_entry(bc, en, o, b)
            bad = [(x['name'], x['status'], x['model']) for x in r['obligs'] if x['status'] != 'proved']
            print(en, "obl", len(r['obligs']), "triv", r.get('trivial_mem'), "bad", bad, r['covers'], r['error'], "%.1fs q=%s" % (r['wall_s'], r.get('queries')), r.get('loops') or '', flush=True)
finally:
    shutil.rmtree(tmp)
