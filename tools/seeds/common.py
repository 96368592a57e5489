START = 'import subprocess, time\nfrom durus.client_storage import ClientStorage\nfrom durus.connection import Connection\nfrom durus.persistent import Persistent\nfrom durus.error import ConflictError, ReadConflictError, WriteConflictError\nsock = os.path.join(D, \'s\')\np = subprocess.Popen([sys.executable, \'-c\', "from durus.storage_server import StorageServer; from durus.storage import MemoryStorage; StorageServer(MemoryStorage(), address=%r).serve()" % sock])\ntry:\n    for i in range(200):\n        if os.path.exists(sock): break\n        time.sleep(.05)\n    time.sleep(.3)\n'
END = '\nfinally:\n    p.kill(); p.wait()\n'

