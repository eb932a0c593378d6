package types

import (
	"strings"

	"vs"
)

// ---- identifiers (C10, C11, C12)

func cut(s string) string {
	if len(s) > MaxIdentifier {
		return s[:MaxIdentifier]
	}
	return s
}

// known: what holds of the identifier tables at any time.
func known(ids map[string]Identifier, nms map[Identifier]string, last Identifier) bool {
	return vs.And(
		vs.Forall(func(s string) bool {
			id, ok := ids[s]
			n, has := nms[id]
			return vs.Imp(ok, vs.And(0 <= id, id <= last, has, n == s, len(s) <= MaxIdentifier))
		}),
		vs.Forall(func(s string) bool {
			id, ok := keywords[s]
			n, has := nms[id]
			return vs.Imp(ok, vs.And(id <= last, has, n == s))
		}),
		vs.Forall(func(id Identifier) bool {
			n, ok := nms[id]
			i, is := ids[n]
			k, kis := keywords[n]
			return vs.Imp(ok, vs.And(id <= last, len(n) <= MaxIdentifier, vs.Or(vs.And(is, i == id), vs.And(kis, k == id))))
		}),
	)
}

// grown: names and identifiers are only ever added.
func grown(ids0, ids map[string]Identifier, nms0, nms map[Identifier]string) bool {
	return vs.And(
		vs.Forall(func(s string) bool {
			id0, ok0 := ids0[s]
			id, ok := ids[s]
			return vs.Imp(ok0, vs.And(ok, id == id0))
		}),
		vs.Forall(func(i Identifier) bool {
			n0, ok0 := nms0[i]
			n, ok := nms[i]
			return vs.Imp(ok0, vs.And(ok, n == n0))
		}),
	)
}

//vs:monitor types.mutex types.identifiers types.names types.lastIdentifier
//vs:prop C10 C11 C12
func M_identifiers(ids0, ids map[string]Identifier, nms0, nms map[Identifier]string, last0, last Identifier) bool {
	return vs.And(known(ids, nms, last), grown(ids0, ids, nms0, nms))
}

//vs:theorem
//vs:init 1
//vs:prop C10 C11
func V_IdentifiersInit() {
	vs.Ensures("the tables are well formed when the package has been initialised", known(identifiers, names, lastIdentifier))
	vs.Ensures("names of the catalogue", SInitNames())
}

//vs:contract types.ID
//vs:prop C10 C11 C12
func V_ID(s string, quoted bool) Identifier {
	ids0, nms0 := vs.Copy(identifiers), vs.Copy(names)
	vs.Modifies(identifiers, names, &lastIdentifier)
	r := ID(s, quoted)
	vs.Ensures("names are only added", vs.And(known(identifiers, names, lastIdentifier), grown(ids0, identifiers, nms0, names)))
	k, ok := keywords[strings.ToUpper(s)]
	n := cut(vs.Ite(quoted, s, strings.ToLower(s)))
	id, has := identifiers[n]
	vs.Ensures("keyword or name", vs.Ite(vs.And(!quoted, ok), r == k, vs.And(has, id == r)))
	nam, is := names[r]
	vs.Ensures("the name of an identifier", vs.Imp(vs.Or(quoted, !ok), vs.And(is, nam == n)))
	return r
}

// IsNamed: the identifier is that of the name or keyword.
func IsNamed(r Identifier, s string, quoted bool) bool {
	k, ok := keywords[strings.ToUpper(s)]
	id, has := identifiers[cut(vs.Ite(quoted, s, strings.ToLower(s)))]
	return vs.Ite(vs.And(!quoted, ok), r == k, vs.And(has, id == r))
}

//vs:contract (types.Identifier).String
//vs:prop C10 C11 C12
func V_IdentifierString(id Identifier) string {
	ids0, nms0 := vs.Copy(identifiers), vs.Copy(names)
	vs.Modifies(identifiers, names, &lastIdentifier)
	r := id.String()
	vs.Ensures("names are only added", vs.And(known(identifiers, names, lastIdentifier), grown(ids0, identifiers, nms0, names)))
	vs.Ensures("the name of the identifier", vs.And(r == names[id], len(r) <= MaxIdentifier))
	return r
}

//vs:theorem
//vs:prop C10
func V_SameName(s, t string, q1, q2 bool) {
	vs.Modifies(identifiers, names, &lastIdentifier)
	a := ID(s, q1)
	b := ID(t, q2)
	k1, ok1 := keywords[strings.ToUpper(s)]
	k2, ok2 := keywords[strings.ToUpper(t)]
	n1 := cut(vs.Ite(q1, s, strings.ToLower(s)))
	n2 := cut(vs.Ite(q2, t, strings.ToLower(t)))
	w1, w2 := vs.And(!q1, ok1), vs.And(!q2, ok2)
	vs.Ensures("two keywords", vs.Imp(vs.And(w1, w2), vs.And(a == k1, b == k2)))
	vs.Ensures("two names", vs.Imp(vs.And(!w1, !w2), vs.Iff(a == b, n1 == n2)))
	x := a.String()
	vs.Ensures("reported name", vs.Imp(!w1, x == n1))
	vs.Ensures("length", vs.Imp(!w1, len(x) <= MaxIdentifier))
}

//vs:contract (types.Identifier).GobEncode
//vs:prop C11 C12
func V_IdentifierGobEncode(id Identifier) ([]byte, error) {
	ids0, nms0 := vs.Copy(identifiers), vs.Copy(names)
	vs.Modifies(identifiers, names, &lastIdentifier)
	r, err := id.GobEncode()
	vs.Ensures("names are only added", vs.And(known(identifiers, names, lastIdentifier), grown(ids0, identifiers, nms0, names)))
	n := names[id]
	k, ok := keywords[n]
	vs.Ensures("flag and name", vs.And(err == nil, string(r) == vs.Ite(vs.And(ok, k == id), "\x01", "\x00")+n))
	return r, err
}

//vs:contract (*types.Identifier).GobDecode
//vs:prop C11 C12
func V_IdentifierGobDecode(id *Identifier, val []byte) error {
	ids0, nms0 := vs.Copy(identifiers), vs.Copy(names)
	s := string(val)
	bad := len(s) == 0 || s[0] > 1
	vs.Modifies(identifiers, names, &lastIdentifier, id)
	old := *id
	err := id.GobDecode(val)
	vs.Ensures("malformed bytes are an error", vs.Iff(err != nil, bad))
	vs.Ensures("nothing is decoded then", vs.Imp(bad, *id == old))
	if !bad {
		vs.Ensures("names are only added", vs.And(known(identifiers, names, lastIdentifier), grown(ids0, identifiers, nms0, names)))
		n := s[1:]
		k, ok := keywords[strings.ToUpper(n)]
		q := s[0] == 0
		m := cut(vs.Ite(q, n, strings.ToLower(n)))
		i, has := identifiers[m]
		vs.Ensures("keyword or name", vs.Ite(vs.And(!q, ok), *id == k, vs.And(has, i == *id)))
	}
	return err
}

//vs:theorem
//vs:prop C11
func V_IdentifierGob(id Identifier, old Identifier) {
	vs.Requires(known(identifiers, names, lastIdentifier))
	_, is := names[id]
	vs.Requires(is)
	vs.Modifies(identifiers, names, &lastIdentifier)
	vs.Proof(func() {
		for k := range keywords {
			vs.Assert("a keyword is in upper case", strings.ToUpper(k) == k)
		}
	})
	buf, err := id.GobEncode()
	vs.Ensures("encoding never fails", err == nil)
	d := old
	err = d.GobDecode(buf)
	vs.Ensures("decodes to the same identifier", vs.And(err == nil, d == id))
}

// SIdentifiers: the identifier tables may grow.
func SIdentifiers() { vs.Modifies(identifiers, names, &lastIdentifier) }

// SIsID: id is the identifier of s.
func SIsID(s string, quoted bool, id Identifier) bool {
	k, ok := keywords[strings.ToUpper(s)]
	i, has := identifiers[cut(vs.Ite(quoted, s, strings.ToLower(s)))]
	return vs.Ite(vs.And(!quoted, ok), id == k, vs.And(has, i == id))
}

// SName is the name of an identifier, SNamed that it has one.
func SName(id Identifier) string { return names[id] }
func SNamed(id Identifier) bool {
	_, ok := names[id]
	return ok
}

// SGrown: the tables of identifiers have only grown since.
func SIds() map[string]Identifier { return vs.Copy(identifiers) }
func SNms() map[Identifier]string { return vs.Copy(names) }
func SGrown(ids map[string]Identifier, nms map[Identifier]string) bool {
	return grown(ids, identifiers, nms, names)
}

// SInitNames: what the catalogue is called, from the start and so for ever.
func SInitNames() bool {
	is := func(id Identifier, s string) bool {
		n, ok := names[id]
		return vs.And(ok, n == s)
	}
	return vs.And(is(SYSTEM, "system"), is(INFO, "info"), is(MAHO, "maho"), is(PUBLIC, "public"),
		is(SEQUENCES, "sequences"), is(DATABASES, "databases"), is(SCHEMAS, "schemas"), is(TABLES, "tables"))
}

// ModifiesNames: asking for an identifier or for its name may add names.
func ModifiesNames() { vs.Modifies(identifiers, names, &lastIdentifier) }
