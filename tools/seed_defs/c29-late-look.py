PROPERTY = 'C29'
NEEDS = 'the application imports a Qt binding after the library, then a different one is requested'
BREAKS = 'The conflict is not noticed: a request for a different binding than the imported one is not refused.'
EDITS = [('qt_util.py', """    if not HAVE_QT:
        check_qt_imported()

    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:
        raise ValueError(f'Already imported Qt library: {QT_LIB}')    
""", """    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:
        raise ValueError(f'Already imported Qt library: {QT_LIB}')    

    if not HAVE_QT:
        check_qt_imported()
""")]
DEMO = '''
import sys, types
import teleprox
from teleprox import qt_util
def fake(lib):
    for n in ('', '.QtCore', '.QtGui', '.QtWidgets'):
        m = types.ModuleType(lib + n)
        m.QApplication = object
        m.pyqtSignal = m.Signal = object
        sys.modules[lib + n] = m
fake('PyQt5')
try:
    qt_util.import_qt('PySide2')
except ValueError:
    pass
else:
    raise AssertionError('not refused')
'''
