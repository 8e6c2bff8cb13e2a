// Memory: every allocation is an object at its own 2^32-aligned address; objects are copy-on-write.
#pragma once
#include "expr.h"

struct Obj {
  uint64_t size = 0;
  bool alive = true;
  bool ro = false;
  uint8_t kind = 0;  // 0 global, 1 heap, 2 stack, 3 external stub
  std::vector<uint8_t> b;
  std::vector<E> sym;          // empty, or one entry per byte (nullptr = concrete)
  std::vector<uint8_t> uninit;  // empty = fully initialised
  std::string name;
};
using ObjP = std::shared_ptr<Obj>;
constexpr uint64_t OBJ_OFF = 0x1000;

struct Mem {
  static constexpr int CH = 128;
  struct Chunk { ObjP o[CH]; };
  std::vector<std::shared_ptr<Chunk>> ch;
  uint64_t n = 0;

  // objects allocated while `down` is set lie below one another, in a range of their own above all others
  static constexpr uint64_t DOWN = 0x20000000, TOP = 0x40000000;
  bool down = false;
  static uint64_t addrOf(uint64_t id, bool dn) { return ((dn ? TOP - id : id + 1) << 32) | OBJ_OFF; }
  static uint64_t slot(uint64_t hi) { return hi < DOWN ? hi : hi <= TOP ? TOP - hi + 1 : 0; }
  uint64_t alloc(uint64_t size, uint8_t kind, bool uninit, const std::string& nm = "") {
    auto o = std::make_shared<Obj>();
    o->size = size; o->kind = kind; o->name = nm;
    o->b.assign(size, 0);
    if (uninit) o->uninit.assign(size, 1);
    uint64_t id = n++;
    if (id / CH >= ch.size()) ch.push_back(std::make_shared<Chunk>());
    auto& c = ch[id / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    c->o[id % CH] = o;
    return addrOf(id, down && kind == 1);
  }
  const Obj* get(uint64_t addr, uint64_t& off) const {
    uint64_t hi = slot(addr >> 32);
    if (hi == 0 || hi > n) return nullptr;
    const Obj* o = ch[(hi - 1) / CH]->o[(hi - 1) % CH].get();
    off = (addr & 0xffffffffull) - OBJ_OFF;
    return o;
  }
  Obj* getW(uint64_t addr, uint64_t& off) {
    uint64_t hi = slot(addr >> 32);
    if (hi == 0 || hi > n) return nullptr;
    auto& c = ch[(hi - 1) / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto& o = c->o[(hi - 1) % CH];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    off = (addr & 0xffffffffull) - OBJ_OFF;
    return o.get();
  }
  void kill(uint64_t addr) {
    uint64_t off;
    Obj* o = getW(addr, off);
    if (!o) return;
    o->alive = false;
    std::vector<uint8_t>().swap(o->b);
    std::vector<E>().swap(o->sym);
    std::vector<uint8_t>().swap(o->uninit);
  }
};
