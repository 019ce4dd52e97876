"""Loopback HTTP endpoints that serve schemas, and record what they are asked for."""
import http.server
import itertools
import json
import os
import threading

from graphql import build_schema, graphql_sync

_server, _pid = None, None           # a forked worker needs a server of its own
_ids = itertools.count()
ROUTES = {}


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def answer(self, status, body, content_type="text/plain"):
        body = body.encode("utf-8")
        self.send_response(status)
        self.send_header("Content-Type", content_type)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def route(self):
        route = ROUTES.get(self.path)
        if route is None:
            self.answer(404, "nothing here")
            return None
        route["log"].append((self.command, {k.lower(): v for k, v in self.headers.items()}))
        if any(self.headers.get(k) != v for k, v in route.get("headers", {}).items()):
            self.answer(401, "who are you?")
            return None
        return route

    def do_GET(self):
        route = self.route()
        if route is not None:
            how = route.get("get", "sdl")
            if how == "sdl":
                self.answer(200, route["sdl"])
            elif how == "html":
                self.answer(200, "<!DOCTYPE html><html><body>GraphiQL</body></html>")
            elif how == "empty":
                self.answer(200, "")
            else:
                self.answer(int(how), route["sdl"])

    def do_POST(self):
        body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
        route = self.route()
        if route is None:
            return
        how = route.get("post", "graphql")
        if how == "graphql":
            query = json.loads(body)["query"]
            route["queries"].append(query)
            result = graphql_sync(build_schema(route["sdl"]), query)
            self.answer(200, json.dumps(result.formatted), "application/json")
        elif how == "errors":
            self.answer(200, json.dumps({"errors": [{"message": "introspection is disabled"}], "data": None}), "application/json")
        elif how == "partial":
            data = graphql_sync(build_schema(route["sdl"]), json.loads(body)["query"]).data
            self.answer(200, json.dumps({"errors": [{"message": "part of the schema is hidden"}], "data": data}), "application/json")
        elif how == "nodata":
            self.answer(200, json.dumps({"message": "ok"}), "application/json")
        elif how == "html":
            self.answer(200, "<html/>")
        else:
            self.answer(int(how), "no")


def add(**route):
    """registers an endpoint: its URL and its record"""
    global _server, _pid
    if _server is None or _pid != os.getpid():
        _pid = os.getpid()
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"
        _server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        _server.daemon_threads = True
        threading.Thread(target=_server.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
    path = f"/{next(_ids)}/graphql"
    ROUTES[path] = {**route, "log": [], "queries": []}
    return f"http://127.0.0.1:{_server.server_address[1]}{path}", ROUTES[path]


def clear():
    ROUTES.clear()
