"""stable names for entry points and constructs (no line numbers, no helper names)"""
def label(world, f):
    r = world.roles.get(f)
    if r:
        s, fld = sorted(r)[0]
        return '%s:%s.%s' % (f.tu.name.split('/')[-1], s, fld)
    return '%s:%s' % (f.tu.name.split('/')[-1], f.dname)
