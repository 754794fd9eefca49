"""A small OPeNDAP (DAP2) server on the loopback network, serving netCDF files of a folder."""
import http.server, re, threading, urllib.parse
from pathlib import Path
import numpy as np

TYPES = {"f4": ("Float32", ">f4"), "f8": ("Float64", ">f8"), "i4": ("Int32", ">i4"), "i8": ("Float64", ">f8")}


def read(f):
    import netCDF4
    out = {}
    with netCDF4.Dataset(f) as nc:
        nc.set_auto_mask(False)
        for k, v in nc.variables.items():
            at = {a: v.getncattr(a) for a in v.ncattrs() if isinstance(v.getncattr(a), str)}
            out[k] = (v.dimensions, v[:], TYPES[v.dtype.str[1:]], at)
    return out


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_GET(self):
        s = self.server
        u = urllib.parse.urlsplit(self.path)
        path, query = urllib.parse.unquote(u.path), urllib.parse.unquote(u.query)
        m = re.fullmatch(r"(.*\.nc)\.(dds|das|dods)", path)
        s.log.append(path.rsplit("/", 1)[-1] + ("?" + query if query else ""))
        f = s.root / m.group(1).lstrip("/") if m else None
        status = s.fault(len(s.log), path)
        if status or f is None or not f.is_file():
            return self.reply(status or 404, b"not here", "text/plain")
        data = read(f)
        if m.group(2) == "das":
            t = "Attributes {\n" + "".join(f"  {k} {{\n" + "".join(f'    String {a} "{x}";\n' for a, x in at.items()) + "  }\n" for k, (_, _, _, at) in data.items()) + "}\n"
            return self.reply(200, t.encode(), "text/plain", "dods_das")
        want = []
        for p in [x for x in query.split(",") if x] or list(data):
            name = re.match(r"[^\[]+", p).group(0)
            dims, a, ty, _ = data[name]
            sl = []
            for h in re.findall(r"\[([^\]]*)\]", p):
                q = [int(x) for x in h.split(":")]
                sl.append(slice(q[0], q[-1] + 1, q[1] if len(q) == 3 else 1))
            want.append((name, dims, np.asarray(a)[tuple(sl)], ty))
        dds = "Dataset {\n" + "".join(f"  {ty[0]} {n}" + "".join(f"[{d} = {k}]" for d, k in zip(dims, a.shape)) + ";\n" for n, dims, a, ty in want) + "} " + f.name + ";\n"
        if m.group(2) == "dds":
            return self.reply(200, dds.encode(), "text/plain", "dods_dds")
        body = dds.encode() + b"\nData:\n"
        for _, dims, a, ty in want:
            n = np.array([a.size], ">u4").tobytes() if dims else b""
            body += n + n + np.ascontiguousarray(a, dtype=ty[1]).tobytes()
        self.reply(200, body, "application/octet-stream", "dods_data")

    def reply(self, code, body, kind, desc=None):
        self.send_response(code)
        self.send_header("Content-Type", kind)
        self.send_header("XDODS-Server", "dods/3.2")
        if desc:
            self.send_header("Content-Description", desc)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)


class Server:
    """with Server(folder) as s: ... s.url; s.log holds the requests; fault(number, path) -> status or 0"""
    def __init__(self, root, fault=lambda n, path: 0):
        self.http = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.http.root, self.http.log, self.http.fault = Path(root), [], fault
        self.http.daemon_threads = True
        self.log = self.http.log

    def __enter__(self):
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
        self.url = f"http://127.0.0.1:{self.http.server_port}"
        return self

    def __exit__(self, *a):
        self.http.shutdown()
        self.http.server_close()
