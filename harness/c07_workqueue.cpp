// schedule exploration of WorkQueue: exactly-once execution, promptness, shutdown (tags 1), priority order (tags 2)
#include "families.hpp"
#include <cstring>
#include <gmlc/containers/WorkQueue.hpp>
using namespace gmlc::containers;
using Prio = WorkQueue::WorkPriority;

// monitor cells: 0 executed count, 1 accepted count, 2 gate open, 3 gate reached, 4 closed, 10.. executions per block
static constexpr int EXEC0 = 10, MAXB = 40;
static int order[256], who[256], norder;

struct Blk : BasicWorkBlock {
    int id;
    bool fin = false;
    Blk(int i, bool f = false) : id(i), fin(f) {}
    void execute() override
    {
        MC_CHECK(!fin, "a finished block was executed");
        MC_CHECK(!mc::cell(4), "block %d was executed after the queue had been closed", id);
        MC_CHECK(++mc::cell(EXEC0 + id) == 1, "block %d was executed twice", id);
        who[norder] = mc::self();
        order[norder++] = id;
        if (id == 0) {   // the gate block
            mc::bump_cell(3);
            mc::await_cell(2, 1);
        }
        fin = true;
        mc::bump_cell(0);
    }
    bool isFinished() const override { return fin; }
};
static WorkQueue* wq;
static int nextId;
static std::shared_ptr<BasicWorkBlock> mk(int id, bool fin = false) { return std::make_shared<Blk>(id, fin); }

// ------------------------------------------------------------------ exactly once
enum { ADDM, ADDH, ADDL, ADDREQ, ADDV, ADDVH, ADDFIN, ADDNULL, QEMPTY, QNUM, GETC, CLOSE, TAKE, RAT1, RATN, FM1, FM2, FH1, FL1, FV1, FV2, FV3 };
static int accepted;
static int workers, ctorArg;   // ctorArg: negative for the default number of workers
static int processors = 1;
extern "C" int get_nprocs() { return processors; }   // what std::thread::hardware_concurrency asks
static void accept() { accepted++; }
static void doop(int op, int id)
{
    switch (op) {
        case ADDM:
            accept();
            wq->addWorkBlock(mk(id));
            break;
        case ADDH:
            accept();
            wq->addWorkBlock(mk(id), Prio::high);
            break;
        case ADDL:
            accept();
            wq->addWorkBlock(mk(id), Prio::low);
            break;
        case ADDREQ:
            accept();
            wq->addWorkBlock(mk(id), Prio::required);
            break;
        case ADDV:
        case ADDVH: {
            accept();
            accept();
            std::vector<std::shared_ptr<BasicWorkBlock>> v{mk(id), nullptr, mk(39, true), mk(id + 1)};
            if (op == ADDV) wq->addWorkBlock(v);
            else wq->addWorkBlock(v, Prio::high);
            break;
        }
        case ADDFIN: wq->addWorkBlock(mk(39, true)); break;
        case ADDNULL: wq->addWorkBlock(std::shared_ptr<BasicWorkBlock>{}); break;
        case QEMPTY: (void)wq->isEmpty(); break;
        case QNUM: (void)wq->numBlock(); break;
        case GETC: (void)wq->getWorkerCount(); break;
        case CLOSE:
            wq->closeWorkerQueue();
            mc::cell(4) = 1;   // from now on no worker runs anything
            MC_CHECK(wq->getWorkerCount() == 0, "a closed queue reports workers");
            break;
        case TAKE: {   // somebody else than a worker takes and runs a block
            auto b = wq->getWorkBlock();
            if (b && !b->isFinished()) b->execute();
            break;
        }
        case FM1:
        case FM2:
        case FH1:
        case FL1: {   // memory may run out during the submission: then the block is not accepted
            auto b = mk(id);
            Prio pr = op == FH1 ? Prio::high : op == FL1 ? Prio::low : Prio::medium;
            mc::fail_alloc(op == FM2 ? 2 : 1);
            bool ok = true;
            try {
                wq->addWorkBlock(b, pr);
            }
            catch (const std::bad_alloc&) {
                ok = false;
            }
            bool hit = mc::fail_alloc(0);
            MC_CHECK(ok || hit, "addWorkBlock failed although memory was there");
            if (ok) accept();
            else mc::cell(60 + id) = 1;
            break;
        }
        case FV1:
        case FV2:
        case FV3: {
            std::vector<std::shared_ptr<BasicWorkBlock>> v{mk(id), mk(id + 1)};
            mc::fail_alloc(op == FV1 ? 1 : op == FV2 ? 2 : 3);
            bool ok = true;
            try {
                wq->addWorkBlock(v);
            }
            catch (const std::bad_alloc&) {
                ok = false;
            }
            bool hit = mc::fail_alloc(0);
            MC_CHECK(ok || hit, "addWorkBlock failed although memory was there");
            if (ok) {
                accept();
                accept();
            } else
                mc::cell(60 + id) = mc::cell(60 + id + 1) = 1;
            break;
        }
        case RAT1: wq->setPriorityRatio(1); break;
        case RATN: wq->setPriorityRatio(-1); break;
    }
}
static void check_once(bool all)
{
    // recorded when everything is over: which thread ran which block in which order (counts distinct outcomes)
    for (int i = 0; i < norder; i++) {
        int h = mc::inv(0, order[i], who[i]);
        mc::res(h);
    }
    for (int i = 1; i < 38; i++) {
        int c = mc::cell(EXEC0 + i);
        MC_CHECK(c <= 1, "block %d was executed %d times", i, c);
        MC_CHECK(!c || !mc::cell(60 + i), "block %d was executed although its submission failed", i);
        (void)all;
    }
}
static void reset_monitors()
{
    norder = 0;
    accepted = 0;
    for (int i = 0; i < 110; i++) mc::cell(i) = 0;
}
// producers: fam->T threads of fam->K operations; main waits for all work, then closes and destroys
static void bodyRun(int arg)
{
    ctorArg = arg;
    reset_monitors();
    wq = new WorkQueue(ctorArg < 0 ? ctorArg : workers);
    mc::atomic_region(wq, sizeof *wq);
    if (ctorArg < 0) MC_CHECK(wq->getWorkerCount() >= 1 || !processors, "no workers by default");
    else MC_CHECK(wq->getWorkerCount() == workers, "getWorkerCount()=%d with %d workers", wq->getWorkerCount(), workers);
    bool early = cinit == 1;     // the first thread's program runs on the main thread, without waiting for workers
    {
        std::vector<std::thread> th;
        th.reserve(fam->T);
        for (int t = 0; t < fam->T; t++) {
            const std::vector<int>* p = &fam->progs[(*combo)[t]];
            auto fn = [p, t] {
                for (size_t i = 0; i < p->size(); i++) doop((*alpha)[(*p)[i]], 1 + t * 12 + (int)i * 2);
            };
            if (t == 0) fn();
            else th.emplace_back(fn);
        }
        for (auto& x : th) x.join();
    }
    if (!early) {
        // every accepted block must get executed although no waiting time ever expires
        mc::await_cell(0, accepted);
        MC_CHECK(wq->isEmpty() && wq->numBlock() == 0, "all blocks are executed but the queue is not empty");
    }
    if (cinit == 2) {
        wq->closeWorkerQueue();
        mc::cell(4) = 1;
        MC_CHECK(wq->getWorkerCount() == 0, "a closed queue reports workers");
        wq->closeWorkerQueue();
    }
    delete wq;
    mc::cell(4) = 1;
    check_once(!early);
    if (!early) MC_CHECK(mc::cell(0) == accepted, "%d blocks accepted, %d executed", accepted, mc::cell(0));
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
static void bodyRunDef()
{
    processors = cinit != 2;
    bodyRun(cinit == 1 ? -3 : -1);
}
static void bodyRun0() { workers = 0; bodyRun(0); }
static void bodyRun1() { workers = 1; bodyRun(1); }
static void bodyRun2() { workers = 2; bodyRun(2); }
static void bodyRun3() { workers = 3; bodyRun(3); }
// blocks added from inside a running block (nested submission)
struct Nest : BasicWorkBlock {
    bool fin = false;
    int op, id;
    Nest(int o, int i) : op(o), id(i) {}
    void execute() override
    {
        doop(op, id);
        fin = true;
        mc::bump_cell(0);
    }
    bool isFinished() const override { return fin; }
};
static void bodyNest()
{
    reset_monitors();
    wq = new WorkQueue(workers);
    mc::atomic_region(wq, sizeof *wq);
    int op = (*alpha)[fam->progs[(*combo)[0]][0]];
    int extra = op == ADDV || op == ADDVH ? 2 : (op == ADDFIN || op == ADDNULL || op > ADDNULL) ? 0 : 1;
    wq->addWorkBlock(std::make_shared<Nest>(op, 1), cinit ? Prio::high : Prio::low);
    mc::await_cell(0, 1 + extra);
    delete wq;
    mc::cell(4) = 1;
    check_once(true);
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
static void bodyNest1() { workers = 1; bodyNest(); }
static void bodyNest2() { workers = 2; bodyNest(); }

// ------------------------------------------------------------------ closing while others submit
static void bodyClose()
{
    reset_monitors();
    wq = new WorkQueue(workers);
    mc::atomic_region(wq, sizeof *wq);
    {
        std::vector<std::thread> th;
        th.reserve(fam->T);
        for (int t = 0; t < fam->T; t++) {
            const std::vector<int>* p = &fam->progs[(*combo)[t]];
            th.emplace_back([p, t] {
                for (size_t i = 0; i < p->size(); i++) doop((*alpha)[(*p)[i]], 1 + t * 12 + (int)i * 2);
            });
        }
        wq->closeWorkerQueue();
        mc::cell(4) = 1;
        for (auto& x : th) x.join();
    }
    delete wq;
    check_once(false);
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
static void bodyClose1() { workers = 1; bodyClose(); }
static void bodyClose2() { workers = 2; bodyClose(); }

// ------------------------------------------------------------------ running out of threads and memory
// starting the workers fails at one of them, or at one allocation
static void bodyMake()
{
    reset_monitors();
    int N = workers, f = (*alpha)[fam->progs[(*combo)[0]][0]];
    void* mem = operator new(sizeof(WorkQueue));
    mc::atomic_region(mem, sizeof(WorkQueue));
    wq = nullptr;
    if (f < 10) mc::fail_thread(f + 1);
    else mc::fail_alloc(f - 9);
    try {
        wq = new (mem) WorkQueue(N);
    }
    catch (const std::system_error&) {
    }
    catch (const std::bad_alloc&) {
    }
    bool hit = f < 10 ? mc::fail_thread(0) : mc::fail_alloc(0);
    if (wq) {   // not failed, or made do with what there was
        int n = wq->getWorkerCount();
        MC_CHECK(n == N || hit, "a work queue of %d workers reports %d", N, n);
        doop(ADDM, 1);
        mc::await_cell(0, accepted);
        wq->~WorkQueue();
        mc::cell(4) = 1;
    } else
        MC_CHECK(hit, "the construction of a work queue failed for no reason");
    operator delete(mem);
    check_once(true);
    int left = mc::await_quiet();
    MC_CHECK(left == 0, "%d workers left behind", left);
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
static void bodyMake1() { workers = 1; bodyMake(); }
static void bodyMake2() { workers = 2; bodyMake(); }
static void bodyMake3() { workers = 3; bodyMake(); }
// closing or destroying the queue while no memory is left, with blocks waiting or running
static void bodyCloseFail()
{
    reset_monitors();
    wq = new WorkQueue(workers);
    mc::atomic_region(wq, sizeof *wq);
    const std::vector<int>& p = fam->progs[(*combo)[0]];
    for (size_t i = 0; i < p.size(); i++) doop((*alpha)[p[i]], 1 + (int)i * 2);
    int k = 1 + cinit % 3;
    mc::fail_alloc(k);
    if (cinit >= 3) {
        try {
            wq->closeWorkerQueue();
        }
        catch (const std::bad_alloc&) {
            mc::fail("closing the queue failed because memory had run out");
        }
        mc::cell(4) = 1;
        MC_CHECK(wq->getWorkerCount() == 0, "a closed queue reports workers");
    }
    delete wq;
    mc::fail_alloc(0);
    mc::cell(4) = 1;
    check_once(false);
    int left = mc::await_quiet();
    MC_CHECK(left == 0, "%d workers left behind", left);
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}
static void bodyCloseFail1() { workers = 1; bodyCloseFail(); }
static void bodyCloseFail2() { workers = 2; bodyCloseFail(); }

// ------------------------------------------------------------------ priority order
enum { PH, PM, PL, PREQ, PVH, PVM, PVL, GET, RATIO1, RATIO2, RATIO0, RATIONEG };
struct Fifo {   // no heap: the executions count live heap blocks
    int v[64], b = 0, e = 0;
    bool empty() const { return b == e; }
    int front() const { return v[b]; }
    void pop_front() { b++; }
    void push_back(int x) { v[e++] = x; }
    size_t size() const { return e - b; }
};
    // initial contents: 0 none, 1: M x6 L x2, 2: L x3 M x6 H x2, 3: ratio 2, alternating M and L, 4: 3 M taken, then M x4 L x2
static const std::vector<std::vector<int>> pre = {
    {},
    {PM, PM, PM, PM, PM, PM, PL, PL},
    {PVL, PL, PVM, PVM, PVM, PVH},
    {RATIO2, PM, PL, PM, PL, PM, PL, PM, PL, PM},
    {PM, PM, PM, GET, GET, GET, PM, PM, PM, PM, PL, PL},
    {RATIO1, PM, PM, PM, GET, GET, PL, PL, RATIO0},
};
static void bodyPrio()
{
    reset_monitors();
    wq = new WorkQueue(1);
    mc::atomic_region(wq, sizeof *wq);
    // reference model
    Fifo H, M, Lw;
    int med = 0, ratio = 4;
    nextId = 1;
    // occupy the only worker
    wq->addWorkBlock(mk(0), Prio::high);
    mc::await_cell(3, 1);
    auto take = [&]() -> int {
        int r;
        if (!H.empty()) {
            r = H.front();
            H.pop_front();
            return r;
        }
        if (med >= ratio && !Lw.empty()) {
            r = Lw.front();
            Lw.pop_front();
            med = 0;
            return r;
        }
        if (!M.empty()) {
            r = M.front();
            M.pop_front();
            med++;
            return r;
        }
        if (!Lw.empty()) {
            r = Lw.front();
            Lw.pop_front();
            return r;
        }
        return -1;
    };
    auto add = [&](int op) {
        int id = nextId++;
        Fifo* d = op == PH || op == PREQ || op == PVH ? &H : op == PM || op == PVM ? &M : &Lw;
        Prio p = op == PREQ ? Prio::required : d == &H ? Prio::high : d == &M ? Prio::medium : Prio::low;
        d->push_back(id);
        if (op == PVH || op == PVM || op == PVL) {
            std::vector<std::shared_ptr<BasicWorkBlock>> v{mk(id)};
            for (int k = 0; k < 1; k++) {
                d->push_back(nextId);
                v.push_back(mk(nextId++));
            }
            wq->addWorkBlock(v, p);
        } else if (op == PM)
            wq->addWorkBlock(mk(id));
        else
            wq->addWorkBlock(mk(id), p);
    };
    auto step = [&](int op) {
        switch (op) {
            case GET: {
                int e = take();
                auto b = wq->getWorkBlock();
                int g = b ? static_cast<Blk*>(b.get())->id : -1;
                MC_CHECK(g == e, "getWorkBlock() gave block %d where block %d is next", g, e);
                break;
            }
            case RATIO1:
                wq->setPriorityRatio(1);
                ratio = 1;
                break;
            case RATIO2:
                wq->setPriorityRatio(2);
                ratio = 2;
                break;
            case RATIO0:
                wq->setPriorityRatio(0);
                ratio = 4;
                break;
            case RATIONEG:
                wq->setPriorityRatio(-3);
                ratio = 4;
                break;
            default: add(op);
        }
        MC_CHECK(wq->numBlock() == H.size() + M.size() + Lw.size(), "numBlock()=%zu with %zu blocks waiting", wq->numBlock(), H.size() + M.size() + Lw.size());
        MC_CHECK(wq->isEmpty() == (H.empty() && M.empty() && Lw.empty()), "isEmpty()=%d with %zu blocks waiting", wq->isEmpty(), H.size() + M.size() + Lw.size());
    };
    for (int o : pre[cinit]) step(o);
    const std::vector<int>& p = fam->progs[(*combo)[0]];
    for (size_t i = 0; i < p.size(); i++) step((*alpha)[p[i]]);
    // the worker takes the rest
    int left = (int)(H.size() + M.size() + Lw.size());
    mc::bump_cell(2);
    mc::await_cell(0, 1 + left);
    for (int i = 0; i < left; i++) {
        int e = take();
        MC_CHECK(order[1 + i] == e, "the worker executed block %d where block %d is next", order[1 + i], e);
    }
    delete wq;
    mc::cell(4) = 1;
    check_once(true);
    MC_CHECK(mc::live_allocs() == 0, "%d heap blocks leaked", mc::live_allocs());
}

// ------------------------------------------------------------------ one block seen by two threads (C09)
static void bodyBlock()
{
    int mode = fam->progs[(*combo)[0]][0];
    auto* wb = new WorkBlock<int>([]() { return 42; });
    int moved = mode & 1;
    if (moved) {
        auto* w2 = new WorkBlock<int>(std::move(*wb));
        delete wb;
        wb = w2;
    }
    {
        std::thread a([&] { wb->execute(); });
        std::thread b([&] {
            if (wb->isFinished()) MC_CHECK(wb->getReturnVal() == 42, "isFinished() is true but the result is wrong");
            if (mode & 2) (void)wb->isFinished();
        });
        a.join();
        b.join();
    }
    MC_CHECK(wb->isFinished() && wb->getReturnVal() == 42, "the block did not deliver its result");
    delete wb;
}
// ------------------------------------------------------------------ throwing work items (C26)
// every item is a real work block; each thread program is executed by one producer, main waits for every item's result
enum { XI, XV, OI, OV, XVEC };
struct Item {
    std::shared_ptr<BasicWorkBlock> b;
    std::shared_future<int> fi;
    std::shared_future<void> fv;
    int op, id;
};
struct XErr {
    int id;
};
static void bodyThrow()
{
    reset_monitors();
    wq = new WorkQueue(workers);
    mc::atomic_region(wq, sizeof *wq);
    static std::vector<Item>* items;
    items = new std::vector<Item>;
    items->reserve(16);
    const std::vector<int>& p = fam->progs[(*combo)[0]];
    auto make = [](int op, int id) {
        Item it;
        it.op = op;
        it.id = id;
        if (op == XI || op == OI) {
            auto w = make_shared_workBlock([op, id]() -> int {
                MC_CHECK(++mc::cell(EXEC0 + id) == 1, "item %d was executed twice", id);
                if (op == XI) throw XErr{id};
                return 100 + id;
            });
            it.fi = w->get_future();
            it.b = w;
        } else {
            auto w = make_shared_workBlock([op, id]() -> void {
                MC_CHECK(++mc::cell(EXEC0 + id) == 1, "item %d was executed twice", id);
                if (op == XV) throw XErr{id};
            });
            it.fv = w->get_future();
            it.b = w;
        }
        return it;
    };
    int id = 1;
    for (size_t i = 0; i < p.size(); i++) {
        int op = (*alpha)[p[i]];
        Prio pr = cinit == 0 ? Prio::medium : cinit == 1 ? Prio::high : Prio::low;
        if (op == XVEC) {
            std::vector<std::shared_ptr<BasicWorkBlock>> v;
            for (int o : {XI, OI}) {
                items->push_back(make(o, id++));
                v.push_back(items->back().b);
            }
            wq->addWorkBlock(v, pr);
        } else {
            items->push_back(make(op, id++));
            wq->addWorkBlock(items->back().b, pr);
        }
    }
    // whoever asks for the result of an item gets its value or its exception
    for (auto& it : *items) {
        int got = 0, thrown = 0;
        try {
            if (it.op == XI || it.op == OI) got = it.fi.get();
            else it.fv.get();
        }
        catch (const XErr& e) {
            thrown = e.id;
        }
        bool x = it.op == XI || it.op == XV;
        MC_CHECK(thrown == (x ? it.id : 0), "item %d delivered exception %d", it.id, thrown);
        if (it.op == OI) MC_CHECK(got == 100 + it.id, "item %d delivered %d", it.id, got);
    }
    delete wq;
    for (auto& it : *items) MC_CHECK(it.b->isFinished(), "item %d is not finished although its result was delivered", it.id);
    delete items;
}
static void bodyThrow0() { workers = 0; bodyThrow(); }
static void bodyThrow1() { workers = 1; bodyThrow(); }
static void bodyThrow2() { workers = 2; bodyThrow(); }
FAMILY(t2, 1, 2, 3, nullptr, L(XI, XV, OI, OV, XVEC), L(XI, XV, OI, OV, XVEC))
FAMILY(t3, 1, 3, 3, nullptr, L(XI, OI), L(XI, XV, OI, XVEC))
FAMILY(wb, 1, 1, 1, nullptr, L(0, 1, 2, 3), L(0, 1, 2, 3))
#define ADDS L(ADDM, ADDH, ADDL, ADDREQ, ADDV, ADDVH, ADDFIN, ADDNULL)
#define ADD4 L(ADDM, ADDH, ADDL, ADDV)
FAMILY(r01, 1, 3, 3, nullptr, ADDS, ADDS)
FAMILY(r11, 1, 1, 3, nullptr, L(ADDM, ADDH, ADDL, ADDREQ, ADDV, ADDVH, ADDFIN, ADDNULL, QEMPTY, QNUM, GETC), ADDS)
FAMILY(r12, 1, 2, 3, nullptr, ADD4, ADDS)
FAMILY(r13, 1, 3, 1, nullptr, L(ADDM), ADD4)
FAMILY(r21, 2, 1, 3, nullptr, L(ADDM, ADDV), ADDS)
FAMILY(n1, 1, 1, 2, nullptr, ADDS, ADDS)
FAMILY(k11, 1, 1, 1, nullptr, ADDS, ADDS)
FAMILY(kc2, 1, 1, 1, nullptr, L(CLOSE), L(CLOSE))
FAMILY(kc3, 2, 1, 1, nullptr, L(CLOSE, ADDM), L(CLOSE, ADDM, ADDH, ADDV, GETC, QEMPTY))
FAMILY(x21, 2, 1, 1, nullptr, L(ADDM, ADDL, ADDV, TAKE, RAT1), L(ADDM, ADDH, ADDL, ADDV, ADDVH, TAKE, RAT1, RATN))
FAMILY(x22, 2, 2, 1, nullptr, L(ADDM, TAKE), L(ADDM, ADDL, ADDV, TAKE, RAT1))
FAMILY(k12, 1, 2, 1, nullptr, L(ADDM, ADDH), ADD4)
FAMILY(fm, 1, 1, 1, nullptr, L(0, 1, 2, 10, 11, 12, 13, 14, 15), L(0, 1, 2, 10, 11, 12, 13, 14, 15))
FAMILY(fc, 1, 2, 6, nullptr, L(ADDM, ADDH), L(ADDM, ADDH, ADDL, ADDV, ADDVH))
#define FADDS L(ADDM, ADDH, FM1, FM2, FH1, FL1, FV1, FV2, FV3)
FAMILY(fs12, 1, 2, 3, nullptr, FADDS, FADDS)
FAMILY(fs13, 1, 3, 1, nullptr, L(ADDM, FM1, FV1), FADDS)
FAMILY(fs21, 2, 1, 3, nullptr, L(ADDM, FM1, FH1, FV1), FADDS)
FAMILY(p4, 1, 4, 6, nullptr, L(PH, PM, PL, PREQ, PVH, PVM, PVL, GET, RATIO1, RATIO2, RATIO0, RATIONEG), L(PH, PM, PL, PVL, PVM, GET, RATIO1, RATIO2, RATIO0))
FAMILY(p6, 1, 6, 3, nullptr, L(PH, PM, PL, GET, RATIO2), L(PH, PM, PL, PVM, GET, RATIO2))
FAMILY(p8, 1, 8, 6, nullptr, L(PM, PL, GET), L(PM, PL, GET))

int main(int argc, char** argv)
{
    mc::Scenario s[40];
    int n = 0;
    auto add = [&](const char* nm, void (*b)(), long (*np)(), void (*sp)(long), int pb, int pbt, unsigned tags, int spur = 0, bool quick = true) {
        s[n] = {nm, b};
        s[n].nprog = np;
        s[n].setprog = sp;
        s[n].pb = pb;
        s[n].pb_thorough = pbt;
        s[n].spurious = spur;
        s[n].quick = quick;
        s[n++].tags = tags;
    };
    add("0workers_x3ops", bodyRun0, r01_n, r01_set, -1, -1, 1);
    add("1worker_x1op", bodyRun1, r11_n, r11_set, 3, -1, 1, 1);
    add("1worker_x2ops", bodyRun1, r12_n, r12_set, 2, -1, 1);
    add("default_workers_x1op", bodyRunDef, r11_n, r11_set, 1, 2, 1);
    add("2workers_x1op", bodyRun2, r11_n, r11_set, 2, 3, 1);
    add("2workers_x2ops", bodyRun2, r12_n, r12_set, 1, 2, 1);
    add("2workers_x3ops", bodyRun2, r13_n, r13_set, 2, 2, 1);
    add("1worker_2producers", bodyRun1, r21_n, r21_set, 2, 3, 1);
    add("2workers_2producers", bodyRun2, r21_n, r21_set, 1, 2, 1);
    add("3workers_x2ops", bodyRun3, r12_n, r12_set, 1, 1, 1, 0, false);
    add("nested_1worker", bodyNest1, n1_n, n1_set, 3, -1, 1);
    add("nested_2workers", bodyNest2, n1_n, n1_set, 2, 2, 1);
    add("close_1worker", bodyClose1, k11_n, k11_set, 3, -1, 1);
    add("close_2workers", bodyClose2, k11_n, k11_set, 2, 3, 1);
    add("close_1worker_x2ops", bodyClose1, k12_n, k12_set, 2, 3, 1);
    add("closers_1worker", bodyClose1, kc2_n, kc2_set, 3, -1, 1);
    add("closers_2workers", bodyClose2, kc2_n, kc2_set, 2, 3, 1);
    add("3closers_1worker", bodyClose1, kc3_n, kc3_set, 2, 3, 1);
    add("takers_1worker", bodyRun1, x21_n, x21_set, 2, 3, 1);
    add("takers_2workers", bodyRun2, x21_n, x21_set, 1, 2, 1);
    add("takers_1worker_x2ops", bodyRun1, x22_n, x22_set, 2, 3, 1);
    add("prio_x4ops", bodyPrio, p4_n, p4_set, 0, 0, 2);
    add("prio_x6ops", bodyPrio, p6_n, p6_set, 0, 0, 2);
    add("prio_x8ops", bodyPrio, p8_n, p8_set, 0, 0, 2);
    add("workblock_2threads", bodyBlock, wb_n, wb_set, -1, -1, 8);
    add("throw_0workers", bodyThrow0, t3_n, t3_set, -1, -1, 16);
    add("throw_1worker", bodyThrow1, t2_n, t2_set, 2, 3, 16);
    add("throw_2workers", bodyThrow2, t2_n, t2_set, 1, 2, 16);
    add("throw_1worker_x3items", bodyThrow1, t3_n, t3_set, 2, 2, 16);
    add("fail_make_1worker", bodyMake1, fm_n, fm_set, -1, -1, 32);
    add("fail_make_2workers", bodyMake2, fm_n, fm_set, 2, 3, 32);
    add("fail_make_3workers", bodyMake3, fm_n, fm_set, 1, 2, 32);
    add("fail_close_1worker", bodyCloseFail1, fc_n, fc_set, 3, -1, 32);
    add("fail_close_2workers", bodyCloseFail2, fc_n, fc_set, 2, 3, 32);
    add("fail_submit_1worker", bodyRun1, fs12_n, fs12_set, 2, 3, 32);
    add("fail_submit_1worker_x3ops", bodyRun1, fs13_n, fs13_set, 2, 2, 32);
    add("fail_submit_2workers", bodyRun2, fs12_n, fs12_set, 1, 2, 32);
    add("fail_submit_2producers", bodyRun1, fs21_n, fs21_set, 2, 3, 32);
    for (int i = 0; i < n; i++)   // data races (C09)
        for (const char* x : {"1worker_x2ops", "2workers_x2ops", "1worker_2producers", "nested_1worker", "close_1worker", "close_2workers", "closers_1worker", "takers_1worker"})
            if (!strcmp(s[i].name, x)) s[i].tags |= 8;
    return mc::run_main(argc, argv, s, n);
}
