package gen

import "kfverif/kf"

// Clone makes a deep copy.
func Clone(p *kf.Prog) *kf.Prog {
	q := *p
	q.Exts = append([]kf.Ext(nil), p.Exts...)
	for i := range q.Exts {
		q.Exts[i].Conf = append([]kf.KV(nil), p.Exts[i].Conf...)
	}
	q.Tabs = append([]kf.Tab(nil), p.Tabs...)
	for i := range q.Tabs {
		q.Tabs[i] = cloneTab(p.Tabs[i])
	}
	q.Acts = append([]kf.Act(nil), p.Acts...)
	for i := range q.Acts {
		q.Acts[i] = cloneAct(p.Acts[i])
	}
	if p.Init != nil {
		a := cloneAct(*p.Init)
		q.Init = &a
	}
	return &q
}

func cloneTab(t kf.Tab) kf.Tab {
	t.Cols = append([]kf.Col(nil), t.Cols...)
	for i := range t.Cols {
		t.Cols[i].Attrs = append([]kf.KV(nil), t.Cols[i].Attrs...)
	}
	t.Idxs = append([]kf.Idx(nil), t.Idxs...)
	for i := range t.Idxs {
		t.Idxs[i].Cols = append([]string(nil), t.Idxs[i].Cols...)
	}
	t.FKs = append([]kf.FK(nil), t.FKs...)
	for i := range t.FKs {
		t.FKs[i].Child = append([]string(nil), t.FKs[i].Child...)
		t.FKs[i].Keys = append([]string(nil), t.FKs[i].Keys...)
		t.FKs[i].Actions = append([]kf.FKAct(nil), t.FKs[i].Actions...)
	}
	return t
}

func cloneAct(a kf.Act) kf.Act {
	a.Annots = append([]kf.Annot(nil), a.Annots...)
	for i := range a.Annots {
		a.Annots[i].Attrs = append([]kf.KV(nil), a.Annots[i].Attrs...)
	}
	a.Params = append([]string(nil), a.Params...)
	a.Mods = append([]string(nil), a.Mods...)
	a.Stmts = append([]kf.Stmt(nil), a.Stmts...)
	for i := range a.Stmts {
		a.Stmts[i].Recv = append([]string(nil), a.Stmts[i].Recv...)
		a.Stmts[i].Args = append([]kf.Tok(nil), a.Stmts[i].Args...)
	}
	return a
}
