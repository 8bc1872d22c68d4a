# Assumed contracts of dependencies (each is listed as an assumption in the evidence).

extern fmt.Sprintf(f, a)(r) { pure; }
extern fmt.Sprint(a)(r) { pure; }
extern fmt.Errorf(f, a)(r) { pure; ensures r != nil; }
extern errors.New(s)(r) { pure; ensures r != nil; }
extern strings.Join(a, s)(r) { pure; }
