// Assumed contracts of the Go standard library: nothing here is proved, everything is listed in the evidence.

func strings.SplitN(s, sep, n) (r)
  option trusted
  ensures n == 2 && sep != "" && !contains(s, sep) ==> len(r) == 1 && r[0] == s
  ensures n == 2 && sep != "" && contains(s, sep) ==> len(r) == 2 && s == r[0] + sep + r[1] && (len(sep) == 1 ==> !contains(r[0], sep))
  ensures n > 0 && sep != "" ==> 1 <= len(r) <= n

// The pieces of a text between separators.
fun splitn(string, string) int
fun splitpart(string, string) [int]string

func strings.Split(s, sep) (r)
  option trusted
  ensures len(r) == splitn(s, sep) && (forall i int {r[i]} :: 0 <= i < len(r) ==> r[i] == splitpart(s, sep)[i])
  ensures sep != "" ==> 1 <= len(r)
  ensures sep != "" && !contains(s, sep) ==> len(r) == 1 && r[0] == s
  ensures sep != "" && contains(s, sep) ==> len(r) >= 2

func strings.Index(s, sep) (r)
  option trusted
  ensures r == indexof(s, sep)

func strings.Contains(s, sub) (r)
  option trusted
  ensures r <==> contains(s, sub)

func strings.Cut(s, sep) (before, after, found)
  option trusted
  ensures found <==> contains(s, sep)
  ensures found ==> s == before + sep + after && (len(sep) == 1 ==> !contains(before, sep))
  ensures !found ==> before == s && after == ""

func strings.HasPrefix(s, p) (r)
  option trusted
  ensures r <==> hasprefix(s, p)

// The formats the module uses to build names.
func fmt.Sprintf(format, args) (r)
  option trusted
  ensures format == "%s!%s" && len(args) == 2 && istype(args[0], string) && istype(args[1], string) ==> r == unbox(args[0], string) + "!" + unbox(args[1], string)
  ensures format == "%s/%s.snap" && len(args) == 2 && istype(args[0], string) && istype(args[1], string) ==> r == unbox(args[0], string) + "/" + unbox(args[1], string) + ".snap"

func sort.Strings(s) ()
  option trusted
  modifies elems(s)
  ensures forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> !(s[j] < s[i])
  ensures forall i int {s[i]} :: 0 <= i < len(s) ==> (exists j int {old(s[j])} :: 0 <= j < len(s) && s[i] == old(s[j]))
  ensures forall j int {old(s[j])} :: 0 <= j < len(s) ==> (exists i int {s[i]} :: 0 <= i < len(s) && s[i] == old(s[j]))

func fmt.Errorf(format, args) (err)
  option trusted
  ensures err != nil

func errors.New(text) (err)
  option trusted
  ensures err != nil

func context.Background() (ctx)
  option trusted
  ensures ctx != nil && !cancelled(ctx)

func context.TODO() (ctx)
  option trusted
  ensures ctx != nil && !cancelled(ctx)

// Numbers as decimal text.
fun uok(string) bool
fun udec(string) int

func strconv.ParseUint(s, base, bits) (n, err)
  option trusted
  ensures base == 10 && bits == 64 ==> (err == nil <==> uok(s))
  ensures base == 10 && bits == 64 && err == nil ==> n == udec(s)

func strconv.FormatUint(n, base) (s)
  option trusted
  ensures base == 10 ==> uok(s) && udec(s) == n && s != ""
