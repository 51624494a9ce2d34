// Copy-on-write memory objects.
#pragma once
#include "expr.h"

enum { TG_CONC = 0, TG_SYM = 1, TG_UNINIT = 2 };
enum { OF_RO = 1, OF_FREED = 2, OF_FUNC = 4, OF_HEAP = 8, OF_STACK = 16, OF_GLOBAL = 32, OF_EXT = 64 };
enum { AK_NONE = 0, AK_MALLOC = 1, AK_NEW = 2, AK_NEWARR = 3 };

struct Obj {
	u32 rc = 1, size = 0;
	u8 flags = 0, akind = 0;
	u32 epoch = 0;
	u8 *data = nullptr;
	u8 *tag = nullptr;
	Expr **sym = nullptr;
	static Obj *make(u32 size, u8 flags)
	{
		Obj *o = new Obj();
		o->size = size;
		o->flags = flags;
		o->data = (u8 *) calloc(size ? size : 1, 1);
		return o;
	}
	Obj *clone() const
	{
		Obj *o = new Obj();
		o->size = size; o->flags = flags; o->akind = akind; o->epoch = epoch;
		o->data = (u8 *) malloc(size ? size : 1);
		memcpy(o->data, data, size);
		if (tag) { o->tag = (u8 *) malloc(size ? size : 1); memcpy(o->tag, tag, size); }
		if (sym) { o->sym = (Expr **) malloc(sizeof(Expr *) * (size ? size : 1)); memcpy(o->sym, sym, sizeof(Expr *) * size); }
		return o;
	}
	void uninit() { if (!size) return; tag = (u8 *) malloc(size); memset(tag, TG_UNINIT, size); }
	void needTag() { if (!tag) tag = (u8 *) calloc(size ? size : 1, 1); }
	void needSym() { needTag(); if (!sym) sym = (Expr **) calloc(size ? size : 1, sizeof(Expr *)); }
	void drop() { if (--rc == 0) { free(data); free(tag); free(sym); delete this; } }
	void freeData() { free(data); free(tag); free(sym); data = (u8 *) calloc(1, 1); tag = nullptr; sym = nullptr; }
};

// chunked persistent array of Obj*
struct ObjTable {
	enum { CH = 128 };
	struct Chunk { u32 rc = 1; Obj *o[CH] = {}; ~Chunk() { for (auto p : o) if (p) p->drop(); } };
	std::vector<Chunk *> ch;
	u32 n = 0;
	ObjTable() {}
	ObjTable(const ObjTable &t) : ch(t.ch), n(t.n) { for (auto c : ch) c->rc++; }
	ObjTable &operator=(const ObjTable &) = delete;
	~ObjTable() { for (auto c : ch) if (--c->rc == 0) delete c; }
	Obj *get(u32 i) const { return i < n ? ch[i / CH]->o[i % CH] : nullptr; }
	Chunk *wch(u32 k)
	{
		Chunk *c = ch[k];
		if (c->rc > 1) {
			Chunk *d = new Chunk();
			for (int i = 0; i < CH; i++) { d->o[i] = c->o[i]; if (c->o[i]) c->o[i]->rc++; }
			c->rc--;
			ch[k] = d;
			c = d;
		}
		return c;
	}
	Obj *getW(u32 i)
	{
		Chunk *c = wch(i / CH);
		Obj *&o = c->o[i % CH];
		if (o->rc > 1) { Obj *k = o->clone(); o->rc--; o = k; }
		return o;
	}
	u32 push(Obj *o)
	{
		if (n / CH >= ch.size()) ch.push_back(new Chunk());
		wch(n / CH)->o[n % CH] = o;
		return n++;
	}
	void set(u32 i, Obj *o) { Chunk *c = wch(i / CH); if (c->o[i % CH]) c->o[i % CH]->drop(); c->o[i % CH] = o; }
	void pop() { n--; Chunk *c = wch(n / CH); if (c->o[n % CH]) c->o[n % CH]->drop(); c->o[n % CH] = nullptr; }
};
