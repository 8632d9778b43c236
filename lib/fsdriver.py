"""Runs the build tool of a scratch copy under a file-system monitor.  usage: fsdriver.py SCRATCH_ROOT (commands on stdin).

Every attempt to change a file outside the scratch root is recorded and refused before it happens."""
import io
import json
import os
import runpy
import sys
import contextlib
import hashlib

ROOT = os.path.realpath(sys.argv[1])
OUT = os.fdopen(os.dup(1), 'w')
escapes = []
changes = [0]
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
armed = False


def real(p, fd=-1):
    if isinstance(p, int):
        return None
    p = os.fsdecode(p)
    if not os.path.isabs(p) and isinstance(fd, int) and fd >= 0:
        p = os.path.join(os.readlink(f'/proc/self/fd/{fd}'), p)
    # the last component may be a link that is itself changed: resolve the directory only
    d, b = os.path.split(os.path.abspath(p))
    return os.path.join(os.path.realpath(d), b)


def guard(event, args):
    if not armed:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes, os.PathLike)):
            return
        if not (flags & WRITE):
            return
        ps = [real(path)]
    elif event in ('os.remove', 'os.rmdir'):
        ps = [real(args[0], args[1])]
    elif event == 'os.mkdir':
        ps = [real(args[0], args[2])]
    elif event in ('os.rename', 'os.link'):
        ps = [real(args[0], args[2]), real(args[1], args[3])]
    elif event == 'os.symlink':
        ps = [real(args[1], args[2])]
    elif event in ('os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'os.setxattr', 'os.removexattr'):
        ps = [real(args[0])]
    elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.kill'):
        escapes.append(f'{event} {args[:2]}')
        raise PermissionError(f'monitor: {event} is not allowed')
    else:
        return
    for p in ps:
        if p is not None:
            changes[0] += 1
            if p != ROOT and not p.startswith(ROOT + os.sep) and not p.startswith('/dev/'):
                escapes.append(f'{event} {p}')
                raise PermissionError(f'monitor: {event} outside the scratch directory: {p}')


sys.addaudithook(guard)
REPO_DIR = os.path.realpath(sys.argv[2])
os.chdir(REPO_DIR)
sys.path.insert(0, REPO_DIR)


def zip_listing(data):
    import zipfile
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        bad = z.testzip()
        return [(i.filename, hashlib.sha256(z.read(i)).hexdigest()) for i in z.infolist() if not i.is_dir()], bad


for line in sys.stdin:
    cmd = json.loads(line)
    res = {'out': '', 'err': None}
    buf = io.StringIO()
    n = changes[0]
    escapes.clear()
    os.chdir(os.path.join(REPO_DIR, cmd.get('cwd') or '.'))
    src = cmd.get('src') or 'contracts'
    armed = True
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            if cmd['op'] == 'cli':
                sys.argv = [cmd.get('script') or 'build.py'] + cmd['args']
                runpy.run_path(sys.argv[0], run_name='__main__')
            else:
                from contract_generator.builder import Builder
                from contract_generator.writer import FileWriter, ZipWriter
                if cmd['op'] == 'dir':
                    Builder(src, cmd['names']).build(FileWriter(cmd['out']))
                elif cmd['op'] == 'clean':
                    res['ret'] = FileWriter(cmd['out']).clean()
                elif cmd['op'] == 'zip':
                    w = ZipWriter(cmd['compression']) if cmd.get('compression') else ZipWriter()
                    Builder(src, cmd['names']).build(w)
                    data = w.to_bytes()
                    res['zip'], res['bad'] = zip_listing(data)
                    res['again'] = data == w.to_bytes()
                    res['listing'] = [i.filename for i in w.list_content()]
                    if cmd.get('out'):
                        w.store_to_file(cmd['out'])
                elif cmd['op'] == 'config':
                    from contract_generator.config import config
                    res['config'] = config
    except SystemExit as e:
        res['err'] = f'SystemExit {e.code}' if e.code else None
    except Exception as e:
        res['err'] = f'{type(e).__name__}: {e}'
    armed = False
    os.chdir(REPO_DIR)
    res['out'] = buf.getvalue()
    res['escapes'] = list(escapes)
    res['changes'] = changes[0] - n
    OUT.write(json.dumps(res) + '\n')
    OUT.flush()
