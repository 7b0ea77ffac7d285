PROPERTY = 'C19'
NEEDS = 'a module imported while the server of a new process is set up raises SystemExit'
BREAKS = 'The child ends without a report; its parent waits and reports a timeout in place of the error.'
EDITS = [('bootstrap.py', "    status = {'address': server.address.decode(), 'pid': os.getpid()}\nexcept:\n", "    status = {'address': server.address.decode(), 'pid': os.getpid()}\nexcept Exception:\n")]
DEMO = '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, 'PyQt6'))
    open(os.path.join(d, 'PyQt6', '__init__.py'), 'w').close()
    open(os.path.join(d, 'PyQt6', 'QtCore.py'), 'w').write("raise SystemExit('no display')")
    os.environ['PYTHONPATH'] = os.pathsep.join([d, os.getcwd()])
    import teleprox
    try:
        teleprox.start_process(qt=True)
    except RuntimeError as exc:
        assert 'no display' in str(exc)
    else:
        raise AssertionError('started')
finally:
    shutil.rmtree(d)
'''
