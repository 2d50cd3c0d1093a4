"""A small web on the loopback interface, and a watch on who uses it."""
import http.server
import os
import ssl
import sys
import threading

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"


class Watch(threading.local):
    """Connections and look-ups begun by this thread"""
    n = told = 0


WATCH = Watch()


def hook(event, args):
    if event in ("socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.sendto"):
        WATCH.n += 1


INSTALLED = []


def watch():
    if not INSTALLED:
        INSTALLED.append(1)
        sys.addaudithook(hook)


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def do_GET(self):
        site = self.server.site
        place = self.path.split("?")[0].lstrip("/")
        site.hits.append(place)
        status, ctype, body, to = site.pages.get(place, (404, "text/plain", b"no such page", None))
        self.send_response(status)
        if to:
            self.send_header("Location", to)
        self.send_header("Content-Type", ctype)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *a):
        pass


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True

    def handle_error(self, request, address):
        pass            # a client that turned away


class Site(object):
    def __init__(self, certfile=None, like=None):
        """certfile: certificate and key of a TLS server; like: another
        site whose pages (and visitors' book) these are"""
        self.pages, self.hits = (like.pages, like.hits) if like else ({}, [])
        self.server = Server(("127.0.0.1", 0), Handler)
        self.server.site = self
        if certfile:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain(certfile)
            self.server.socket = c.wrap_socket(self.server.socket, server_side=True, do_handshake_on_connect=False)
        self.base = "%s://127.0.0.1:%d/" % ("https" if certfile else "http", self.server.server_address[1])
        threading.Thread(target=self.server.serve_forever, kwargs={"poll_interval": .05}, daemon=True).start()

    def put(self, place, body, status=200, ctype="text/plain; charset=utf-8", to=None):
        self.pages[place] = (status, ctype, body, to)

    def taken(self):
        h = list(self.hits)
        del self.hits[:len(h)]
        return h

    def close(self):
        self.server.shutdown()
        self.server.server_close()


HOME = []


def home():
    """This process's own site"""
    if not HOME or HOME[0][0] != os.getpid():
        HOME[:] = [(os.getpid(), Site())]
    return HOME[0][1]
