"""A small LSP client: drives the real server binary over stdio in a scratch workspace of its own."""
import json, os, queue, re, shutil, signal, subprocess, tempfile, threading, time, urllib.parse

FMT_C = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
int main(int c, char **v){
  for(int i=1;i<c;i++) if(!strcmp(v[i],"--version")){ puts("movefmt v1.2.1"); return 0; }
  size_t n=0,cap=1<<16; char*b=malloc(cap); size_t r;
  while((r=fread(b+n,1,cap-n,stdin))>0){ n+=r; if(n==cap) b=realloc(b,cap*=2); }
  fputc('X',stdout); fwrite(b,1,n,stdout); return 0; }
'''


def build_fmt(dir):
    src = os.path.join(dir, "fmt.c")
    open(src, "w").write(FMT_C)
    out = os.path.join(dir, "movefmt")
    subprocess.run(["gcc", "-O1", "-o", out, src], check=True)
    return out


def uri(p):
    return "file://" + urllib.parse.quote(p)


class ServerDied(Exception):
    pass


class Timeout(Exception):
    pass


class Server:
    """`on_request(method, params)` answers what the server asks the client (default: null)."""

    def __init__(self, bin, root, folders=None, encodings=None, options=None, caps=None, on_request=None, env=None, args=("lsp-server",)):
        self.root = root
        e = dict(os.environ)
        e.update(RUST_BACKTRACE="0")
        e.pop("RA_LOG_FILE", None)
        e.update(env or {})
        self.errpath = tempfile.mktemp(dir=os.environ.get("VP_WORK", "/dev/shm"), prefix="srv-err-")
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([bin] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=root, env=e)
        self.cv = threading.Condition()
        self.responses = {}      # id -> list of responses, in order
        self.log = []            # everything received, in order
        self.notes = []          # notifications
        self.asked = []          # requests from the server
        self.status = None
        self.eof = False
        self.on_request = on_request or (lambda m, p: None)
        self.next_id = 1
        self.wlock = threading.Lock()
        self.t = threading.Thread(target=self._reader, daemon=True)
        self.t.start()
        c = {"general": {"positionEncodings": encodings} if encodings is not None else {},
             "experimental": {"serverStatusNotification": True}}
        for k, v in (caps or {}).items():
            c.setdefault(k, {}).update(v)
        params = {"processId": None, "rootUri": uri(root), "capabilities": c, "initializationOptions": options or {}}
        if folders is not None:
            params["workspaceFolders"] = [{"uri": uri(f), "name": os.path.basename(f)} for f in folders]
        self.init = self.request("initialize", params)
        self.notify("initialized", {})

    # -- wire
    def _reader(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                while True:
                    line = f.readline()
                    if not line:
                        raise EOFError
                    line = line.strip()
                    if not line:
                        break
                    if line.lower().startswith(b"content-length:"):
                        n = int(line.split(b":")[1])
                m = json.loads(f.read(n))
                with self.cv:
                    self.log.append(m)
                    if "method" in m and "id" in m:
                        self.asked.append(m)
                    elif "method" in m:
                        self.notes.append(m)
                        if m["method"] == "experimental/serverStatus":
                            self.status = m["params"]
                    else:
                        self.responses.setdefault(m["id"], []).append(m)
                    self.cv.notify_all()
                if "method" in m and "id" in m:
                    r = self.on_request(m["method"], m.get("params"))
                    if not (isinstance(r, dict) and r.get("__noreply")):
                        self.write({"jsonrpc": "2.0", "id": m["id"], "result": r})
        except (EOFError, OSError, ValueError, TypeError):
            pass
        with self.cv:
            self.eof = True
            self.cv.notify_all()

    def write(self, m):
        b = json.dumps(m).encode()
        with self.wlock:
            try:
                self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
                self.p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass

    def send(self, method, params, id=None):
        if id is None:
            id = self.next_id
            self.next_id += 1
        self.write({"jsonrpc": "2.0", "id": id, "method": method, "params": params})
        return id

    def notify(self, method, params):
        self.write({"jsonrpc": "2.0", "method": method, "params": params})

    def wait(self, id, timeout=60):
        with self.cv:
            if not self.cv.wait_for(lambda: id in self.responses or self.eof, timeout):
                raise Timeout("no response to request %s" % id)
            if id not in self.responses:
                raise ServerDied(self.stderr())
            return self.responses[id][0]

    def request(self, method, params, timeout=60):
        return self.wait(self.send(method, params), timeout)

    def barrier(self):
        """Everything sent before this has been handled by the main loop."""
        r = self.request("vp/barrier", None)
        assert r.get("error", {}).get("code") == -32601, r

    def wait_for(self, pred, timeout=30):
        with self.cv:
            ok = self.cv.wait_for(lambda: pred() or self.eof, timeout)
            if self.eof and not pred():
                raise ServerDied(self.stderr())
            return ok

    def quiescent(self, timeout=60):
        """The last status said quiescent, and nothing is pending on the main loop."""
        end = time.time() + timeout
        self.wait_for(lambda: self.status is not None, timeout)
        while time.time() < end:
            self.wait_for(lambda: self.status and self.status["quiescent"], max(.01, end - time.time()))
            n = len(self.log)
            self.barrier()
            with self.cv:
                if self.status["quiescent"] and not any(m.get("method") == "experimental/serverStatus" for m in self.log[n:]):
                    return True
        raise Timeout("the server did not become quiescent")

    # -- documents
    def open(self, path, text, version=1, lang="move"):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri(path), "languageId": lang, "version": version, "text": text}})

    def change(self, path, changes, version=2):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri(path), "version": version}, "contentChanges": changes})

    def close(self, path):
        self.notify("textDocument/didClose", {"textDocument": {"uri": uri(path)}})

    def touched(self, *paths):
        self.notify("workspace/didChangeWatchedFiles", {"changes": [{"uri": uri(p), "type": t} for p, t in paths]})

    def format_(self, path):
        return self.send("textDocument/formatting", {"textDocument": {"uri": uri(path)}, "options": {"tabSize": 4, "insertSpaces": True}})

    # -- end
    def stderr(self):
        try:
            return open(self.errpath, errors="replace").read()[-2000:]
        except OSError:
            return ""

    def stop(self):
        """Orderly shutdown; returns (response to shutdown, exit code)."""
        r = None
        try:
            r = self.request("shutdown", None, 20)
            self.notify("exit", None)
            rc = self.p.wait(20)
        except (ServerDied, Timeout, subprocess.TimeoutExpired):
            rc = None
        self.kill()
        return r, rc

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.unlink(self.errpath)
        except OSError:
            pass


def package(dir, name="P", files=(), deps="", extra=""):
    os.makedirs(os.path.join(dir, "sources"), exist_ok=True)
    with open(os.path.join(dir, "Move.toml"), "w") as f:
        f.write('[package]\nname = "%s"\nversion = "1.0.0"\n%s\n[dependencies]\n%s\n' % (name, extra, deps))
    for rel, text in dict(files).items():
        p = os.path.join(dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text.encode() if isinstance(text, str) else text)
