------------------------------- MODULE RealGen ------------------------------
(***************************************************************************)
(* Generates requests to analyse existing packages with a capability map.  *)
(* Each finished behaviour prints one as JSON.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxLines

VARIABLES req, left, phase

vars == <<req, left, phase>>

Pick(S) == RandomElement(S)
Chance(k, n) == RandomElement(1..n) <= k

Targets == {"archive/zip", "bufio", "compress/gzip", "database/sql", "encoding/gob", "encoding/json", "encoding/xml",
            "expvar", "flag", "go/build", "go/parser", "html/template", "image/png", "io/ioutil", "log", "log/slog",
            "log/syslog", "mime/multipart", "net/http", "net/mail", "net/rpc", "os", "os/exec", "os/user",
            "path/filepath", "plugin", "regexp", "sort", "strings", "sync", "testing", "text/tabwriter",
            "text/template", "time", "ex.test/real/a", "ex.test/real/b", "ex.test/real/c"}
Caps == {"FILES", "NETWORK", "RUNTIME", "SYSTEM_CALLS", "REFLECT", "EXEC", "UNSAFE_POINTER", "SAFE", "SAFE", "UNSPECIFIED"}
Leaves == {"syscall", "internal/poll", "os", "reflect", "runtime", "sync", "unicode/utf8", "io", "bytes", "strconv",
           "errors", "time", "fmt", "strings", "sort", "internal/bytealg", "math", "context", "net", "io/fs"}
Functions == {"fmt.Fprintf", "fmt.Sprintf", "fmt.Errorf", "errors.New", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock",
              "sort.Sort", "(reflect.Value).Interface", "reflect.ValueOf", "reflect.TypeOf", "strings.Index",
              "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "strconv.Itoa", "strconv.ParseInt", "os.Open",
              "(*os.File).Read", "(*os.File).Close", "io.ReadAll", "io.Copy", "(*bufio.Reader).ReadByte", "time.Now",
              "unicode/utf8.DecodeRuneInString", "sync.runtime_Semacquire", "(*sync.Once).Do", "runtime.GC",
              "os.init", "fmt.init", "reflect.init", "time.init", "(time.Time).String", "(*fmt.pp).printValue"}

Init == req = [targets |-> <<>>, map |-> <<>>, builtin |-> FALSE, scan |-> FALSE] /\ left = 0 /\ phase = "start"

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Start ==
  /\ phase = "start"
  /\ \E ts \in {RandomSubset(Pick(1..3), Targets)}, b \in {Chance(1, 4)}, s \in {Chance(1, 2)} :
       req' = [req EXCEPT !.targets = SetToSeq(ts), !.builtin = b, !.scan = s]
  /\ \E n \in {Pick(2..MaxLines)} : left' = n
  /\ phase' = "lines"

\* A map must not have two entries for the same thing.
Key(ln) == ln.key
Line ==
  /\ phase = "lines" /\ left > 0
  /\ \E kind \in {Pick({"package", "func", "func", "ignore_edge"})}, c \in {Pick(Caps)},
       p \in {Pick(Leaves)}, f \in {Pick(Functions)}, h \in {Pick(Functions)} :
       LET key == IF kind = "package" THEN "package " \o p ELSE IF kind = "func" THEN "func " \o f
                  ELSE "ignore_edge " \o f \o " " \o h
           line == [key |-> key, text |-> IF kind = "ignore_edge" THEN key ELSE key \o " CAPABILITY_" \o c]
       IN req' = IF key \in {req.map[i].key : i \in DOMAIN req.map} THEN req
                 ELSE [req EXCEPT !.map = Append(@, line)]
  /\ left' = left - 1
  /\ UNCHANGED phase

Finish ==
  /\ phase = "lines" /\ left = 0
  /\ phase' = "done"
  /\ UNCHANGED <<req, left>>

Next == Start \/ Line \/ Finish
Spec == Init /\ [][Next]_vars

Emit == phase = "done" =>
  PrintT(<<"SCENARIO", ToJson([req EXCEPT !.map = [i \in DOMAIN @ |-> @[i].text]])>>)
=============================================================================
