"""a loopback server and a scratch folder, one of each for a worker"""
import os
import shutil
import tempfile
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer


class Web(object):
    def __init__(self, name):
        for k in list(os.environ):
            if k.lower().endswith('_proxy'):
                del os.environ[k]
        web = self
        self.pages, self.requests = {}, []

        class Handler(BaseHTTPRequestHandler):
            def do_GET(self):
                web.requests.append(self.path)
                body = web.pages.get(self.path)
                if body is None:
                    self.send_error(404)
                    return
                self.send_response(200)
                self.send_header('Content-Length', str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *args):
                pass
        self.server = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, daemon=True).start()
        self.base = 'http://127.0.0.1:%d' % self.server.server_port
        self.scratch = tempfile.mkdtemp(prefix=name)

    def close(self):
        self.server.shutdown()
        self.server.server_close()
        shutil.rmtree(self.scratch, ignore_errors=True)
