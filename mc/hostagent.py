"""A program on another host: its process and its thread have the given numbers.
python -m mc.hostagent SOCKET HOST PID IDENT"""
import sys
from mc import rt                   # keeps the real numbers for itself
import os
import platform
import socket
import threading

path, host, pid, ident = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
real_ident = rt._thread.get_ident
main = real_ident()


def get_ident():
    i = real_ident()
    return ident if i == main else i


uname = os.uname()
os.getpid = lambda: pid
os.uname = lambda: os.uname_result((uname[0], host) + tuple(uname[2:]))
socket.gethostname = platform.node = socket.getfqdn = lambda *a: host
rt._thread.get_ident = threading.get_ident = get_ident
threading._active[ident] = threading.main_thread()
threading.main_thread()._ident = ident

from mc.props import c20

rt.fresh(tick=0)
c20.serve(path)
