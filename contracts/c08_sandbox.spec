// What a sandboxed interpreter may reach. Every call from the package to a function
// outside it that is not on the list of harmless ones happens where the interpreter
// at hand is known not to be sandboxed; so does the making of an interpreter that is not.
props C08

guarded by: !env.sandboxed
guarded also: NewZlisp, NewZlispWithFuncs

func (*Zlisp).outside(env, what) (err)
  requires env != nil
  modifies nothing
  ensures refused: env.sandboxed <==> err != nil

// computation only: no files, processes, environment variables, network or exit
guarded harmless: (fmt\.(Errorf|Sprint|Sprintf|Sprintln|Print|Printf|Println|Fprint|Fprintf|Fprintln|Sscan|Sscanf))
guarded harmless: \(?\*?(strings|bytes|strconv|unicode|unicode/utf8|errors|math|math/rand|math/bits|math/big|sort|regexp|path|hash/[a-z0-9]+|encoding/[a-z0-9]+|bufio|io|sync|sync/atomic|container/[a-z]+|slices|maps|cmp|iter|text/tabwriter|html|reflect|time|unsafe|runtime|context)\.[A-Za-z0-9_]+\)?(\.[A-Za-z0-9_]+)?(\$bound|\$thunk)?
guarded harmless: \(\*os\.File\)\.(Close|Read|Write|WriteString|Sync|Name)|os\.Stdout|os\.Stderr|os\.Err[A-Za-z]+
guarded harmless: \(?\*?github\.com/(ugorji/go/codec|shurcooL/go-goon|glycerine/blake2b|glycerine/greenpack/msgp|tinylib/msgp/msgp)\.[A-Za-z0-9_]+\)?(\.[A-Za-z0-9_]+)?
guarded harmless: io/ioutil\.(ReadAll|NopCloser)|4d63\.com/tz\.LoadLocation|runtime/debug\.(Stack|PrintStack)|\([a-z.]*error\)\.Error|\(\*github\.com/glycerine/liner\.State\)\.Close|runtime/pprof\.StopCPUProfile

// the mark of a sandbox is set once, and every copy of the interpreter carries it
writers Zlisp.sandboxed: NewZlispSandbox, (*Zlisp).Duplicate, (*Zlisp).Clone

func NewZlispSandbox() (r)
  ensures marked: r != nil && r.sandboxed

func (*Zlisp).Duplicate(env) (d)
  requires env != nil && env.linearstack != nil && len(env.linearstack.elements) > 0 && env.linearstack.tos == len(env.linearstack.elements) - 1
  ensures marked: d != nil && d.sandboxed == env.sandboxed && env.sandboxed == old(env.sandboxed)

func (*Zlisp).Clone(env) (d)
  requires env != nil && env.datastack != nil && env.addrstack != nil && env.linearstack != nil && env.linearstack.tos == len(env.linearstack.elements) - 1 && len(env.linearstack.elements) > 0
  ensures marked: d != nil && d.sandboxed == env.sandboxed && env.sandboxed == old(env.sandboxed)

func newReplEnv(cfg) (r)
  requires cfg != nil
  ensures marked: old(cfg.Sandboxed) ==> r != nil && r.sandboxed
