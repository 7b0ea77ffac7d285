PROPERTY = 'C27'
NEEDS = 'a shared array that is to outlive the process is received by another one'
BREAKS = 'The receiver of a shared array unlinks the memory when it closes its arrays.'
EDITS = [('shmem.py', "        return SharedNDArray(shmem, arr)\n", "        return SharedNDArray(shmem, arr, close=True)\n")]
DEMO = '''
import pickle
import multiprocessing.shared_memory as m
from teleprox import shmem
a = shmem.SharedNDArray.zeros((4,), 'float64', close=False)
name = a.shmem.name
try:
    b = pickle.loads(pickle.dumps(a))
    a_data = a.data; a.data = None; del a_data
    b.data = None
    shmem.close_all()
    s = m.SharedMemory(name)
    s.close()
finally:
    try:
        a.shmem.unlink()
    except FileNotFoundError:
        pass
'''
