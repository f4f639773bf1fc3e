import sys, load, ir
p = load.load(files=set(sys.argv[1].split(',')))
for f in p.funcs.values():
    if any(s in f['id'] for s in sys.argv[2:]): print(ir.show_fn(f))
