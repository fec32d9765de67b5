------------------------------- MODULE SioUrl -------------------------------
(***************************************************************************)
(* What connecting to a URL has to do.  A URL is put together from parts,  *)
(* so that its meaning needs no parser: every part has its spelling (txt)  *)
(* and what it stands for.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Scheme(txt, ok, tls) == [txt |-> txt, ok |-> ok, tls |-> tls]
Schemes == {Scheme("http", TRUE, FALSE), Scheme("ws", TRUE, FALSE), Scheme("https", TRUE, TRUE), Scheme("wss", TRUE, TRUE),
            Scheme("HTTP", TRUE, FALSE), Scheme("Ws", TRUE, FALSE), Scheme("hTTps", TRUE, TRUE), Scheme("WSS", TRUE, TRUE)}
BadSchemes == {Scheme(x, FALSE, FALSE) : x \in {"ftp", "file", "socket.io", "httpss", "wsss", "httpx", "tcp", "h", "unix"}}

\* name: what a TLS hello has to name ("" where names are not used)
Host(txt, is, name) == [txt |-> txt, is |-> is, name |-> name]
Hosts == {Host("example.com", {"example.com"}, "example.com"), Host("localhost", {"localhost"}, "localhost"),
          Host("127.0.0.1", {"127.0.0.1"}, ""), Host("ExAmple.COM", {"example.com"}, "example.com"),
          Host("a.b-c.example", {"a.b-c.example"}, "a.b-c.example"), Host("[::1]", {"[::1]", "::1"}, ""),
          Host("ex%61mple.com", {"example.com"}, "example.com"), Host("x", {"x"}, "x"), Host("wss", {"wss"}, "wss"),
          Host("b~ucher.example", {"xn--bcher-kva.example"}, "xn--bcher-kva.example"),
          Host("example.com.", {"example.com."}, ""), Host("www.example.com", {"www.example.com"}, "www.example.com"),
          Host("my_host", {"my_host"}, ""), Host("0x7f.1", {"127.0.0.1"}, "")}

Port(txt, ok, is) == [txt |-> txt, ok |-> ok, is |-> is]
Ports == {Port("", TRUE, 0 - 1), Port(":", TRUE, 0 - 1), Port(":80", TRUE, 80), Port(":443", TRUE, 443), Port(":8080", TRUE, 8080), Port(":1", TRUE, 1),
          Port(":65535", TRUE, 65535), Port(":0443", TRUE, 443), Port(":3000", TRUE, 3000)}
BadPorts == {Port(x, FALSE, 0) : x \in {":65536", ":-1", ":x", ":99999999999", ":8 0"}}

Part(txt, is) == [txt |-> txt, is |-> is]
Same(S) == {Part(x, x) : x \in S}
Users == {"", "user@", "u:p@", ":p@", "a%40b:c@"}
Paths == Same({"/", "/socket.io/", "/socket.io", "/a/b.c;d=e", "/a%20b%2Fc", "//x", "/@", "/:80", "/a,b", "/EIO=4"})
         \cup {Part("", "/"), Part("/~e", "/%C3%A9"), Part("/a b", "/a%20b"), Part("/a/../b", "/b"), Part("/./c", "/c")}
\* none: no question mark at all
Queries == Same({"?a=b", "?a=b&c=d", "?EIO=3", "?transport=polling&x=1", "?a=%20+b%26", "?a", "?=", "?a=b?c", "?sid=1", "?a=/b:c@d", "?a=b&"})
           \cup {Part("", ""), Part("?", ""), Part("?~e=1", "?%C3%A9=1"), Part("?a b", "?a%20b")}
Frags == {"", "#", "#frag", "#a?b=c", "#/x&y"}

\* Texts that are no URL or name no host
Nonsense == {"", "/socket.io", "//example.com/", "example.com", "http://", "https:", "ws://?a=b", "http://#f", "http://:80", "wss://user@", "http://a b/",
             "http://[::1", "http://[::g]/", "http://%zz/", "localhost:8000", "ws//x", "*", "http//x", "://x", "http://exa<mple/", "data:text/plain,x",
             "mailto:a@b.c", "about:blank", "ht tp://x", "ws://a:b:c/", "http://a%00b/"}

Text(u) == u.scheme.txt \o "://" \o u.user \o u.host.txt \o u.port.txt \o u.path.txt \o u.query.txt \o u.frag

Valid(u) == u.scheme.ok /\ u.port.ok
PortOf(u) == IF u.port.is >= 0 THEN u.port.is ELSE IF u.scheme.tls THEN 443 ELSE 80

Ours == {"EIO=4&transport=websocket", "transport=websocket&EIO=4"}
\* Targets that request the URL's path and query, extended
Targets(u) ==
    {u.path.is \o (IF u.query.is = "" THEN "?" ELSE u.query.is \o "&") \o x : x \in Ours}
    \cup (IF u.query.is = "?a=b&" THEN {u.path.is \o u.query.is \o x : x \in Ours} ELSE {})
Lines(u) == {"GET " \o x \o " HTTP/1.1" : x \in Targets(u)}
HostHeaders(u) ==
    LET names == u.host.is IN
    names \cup {h \o ":" \o p : h \in names, p \in {ToString(PortOf(u)), u.port.txt}}
          \cup {h \o u.port.txt : h \in names}

\* What was observed: calls of the connector, kind of the first bytes written, the request
Refused(r) == r.res = "url" /\ r.calls = <<>> /\ r.first = "none"
Connects(u, r) ==
    /\ IF r.via = "stream" THEN r.calls = <<>>
       ELSE Len(r.calls) = 1 /\ r.calls[1].host \in u.host.is /\ r.calls[1].port = PortOf(u)
    /\ CASE r.via = "fail" -> r.res = "conn" /\ r.first = "none"
         [] r.via # "fail" /\ u.scheme.tls ->
              \* addresses may be refused by the TLS layer
              \/ r.first = "tls" /\ r.res = "pending" /\ (u.host.name # "" => r.sni)
              \/ u.host.name = "" /\ r.first = "none" /\ r.res = "ws"
         [] OTHER ->
              /\ r.first = "http" /\ r.up /\ r.res = "ok"
              /\ r.line \in Lines(u)
              /\ Len(r.hosts) = 1 /\ r.hosts[1] \in HostHeaders(u)
=============================================================================
