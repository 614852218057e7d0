// Instantiates the templates of the public headers the way a user would so
// that their code is part of the analysed program. Nothing in here is executed.
#include <stdexcept>
#include <functional>
#include <memory>
#include <string>
#include <xdispatch/dispatch.h>
#include <xdispatch/signals.h>
#include <xdispatch/signals_barrier.h>
#include <xdispatch/waitable_queue.h>
#include <xdispatch/barrier_operation.h>
#include <xdispatch/backend_naive.h>

template class xdispatch::signal<void()>;
template class xdispatch::signal<void(int)>;
template class xdispatch::signal<void(const std::string&)>;
template class xdispatch::signal_barrier<void()>;
template class xdispatch::signal_barrier<void(int)>;

// stand-ins for the code of a user, never defined
struct user_value
{
    explicit user_value(int);
    user_value(const user_value&);
    user_value& operator=(const user_value&);
    ~user_value();
    int v;
};
struct user_fn
{
    user_fn(const user_fn&);
    ~user_fn();
    void operator()() const;
    int v;
};
struct user_iter_fn
{
    user_iter_fn(const user_iter_fn&);
    ~user_iter_fn();
    void operator()(size_t) const;
    int v;
};
struct user_notifier_fn
{
    user_notifier_fn(const user_notifier_fn&);
    ~user_notifier_fn();
    void operator()(xdispatch::socket_t, xdispatch::notifier_type) const;
    int v;
};
struct user_two_fn
{
    user_two_fn(const user_two_fn&);
    ~user_two_fn();
    void operator()(int, size_t) const;
    int v;
};
struct user_value_fn
{
    user_value_fn(const user_value_fn&);
    ~user_value_fn();
    void operator()(const user_value&, int) const;
    int v;
};
struct user_class
{
    void member_two(int, size_t);
    void member_value(user_value, int);
    void member();
    void member_iter(size_t);
    void member_int(int);
    int v;
};

template class xdispatch::signal_barrier<void(user_value)>;
template class xdispatch::signal<void(user_value)>;


namespace xdrv {
using namespace xdispatch;

void queue_async(const queue& q, const user_fn& f) { q.async(f); }
void queue_apply(const queue& q, size_t n, const user_iter_fn& f) { q.apply(n, f); }
void queue_after(const queue& q, std::chrono::milliseconds d, const user_fn& f) { q.after(d, f); }
bool queue_equal(const queue& a, const queue& b) { return a == b; }
bool queue_differs(const queue& a, const queue& b) { return a != b; }
void queue_assign(queue& a, const queue& b) { a = b; }
void queue_move(queue& a, queue& b) { a = std::move(b); }
void group_async(const group& g, const queue& q, const user_fn& f) { g.async(f, q); }
void group_async_priority(const group& g, queue_priority p, const user_fn& f) { g.async(f, p); }
void group_notify(const group& g, const queue& q, const user_fn& f) { g.notify(f, q); }
void timer_handler(timer& t, const user_fn& f) { t.handler(f); }
void notifier_handler(socket_notifier& n, const user_notifier_fn& f) { n.handler(f); }

operation_ptr op_function(const user_fn& f) { return make_operation(f); }
operation_ptr op_member(user_class* c, void (user_class::*f)()) { return make_operation(c, f); }
operation_ptr op_same(const operation_ptr& p) { return make_operation(p); }
iteration_operation_ptr it_function(const user_iter_fn& f) { return make_iteration_operation(f); }
iteration_operation_ptr it_member(user_class* c, void (user_class::*f)(size_t)) { return make_iteration_operation(c, f); }
iteration_operation_ptr it_same(const iteration_operation_ptr& p) { return make_iteration_operation(p); }
parameterized_operation_ptr<int, size_t> it_two_function(const user_two_fn& f) { return parameterized_operation<int, size_t>::make(f); }
parameterized_operation_ptr<int, size_t> it_two_member(user_class* c, void (user_class::*f)(int, size_t)) { return parameterized_operation<int, size_t>::make(c, f); }
parameterized_operation_ptr<user_value, int> it_value_function(const user_value_fn& f) { return parameterized_operation<user_value, int>::make(f); }
parameterized_operation_ptr<user_value, int> it_value_member(user_class* c, void (user_class::*f)(user_value, int)) { return parameterized_operation<user_value, int>::make(c, f); }
parameterized_operation_ptr<user_value, int> it_value_same(const parameterized_operation_ptr<user_value, int>& p) { return parameterized_operation<user_value, int>::make(p); }
socket_notifier_operation_ptr sn_function(const user_notifier_fn& f)
{
    return socket_notifier_operation::make(f);
}

connection signal_connect_member(signal<void(int)>& s, user_class* c, void (user_class::*f)(int), const queue& q, notification_mode m)
{
    return s.connect(c, f, q, m);
}
connection signal_connect_value(signal<void(user_value)>& s, user_class* c, void (user_class::*f)(user_value), const queue& q, notification_mode m)
{
    return s.connect(c, f, q, m);
}
connection signal_connect_reference(signal<void(const std::string&)>& s, user_class* c, void (user_class::*f)(const std::string&), const queue& q, notification_mode m)
{
    return s.connect(c, f, q, m);
}
void barrier_destroy(signal_barrier<void()>* a, signal_barrier<void(int)>* b, signal_barrier<void(user_value)>* c)
{
    delete a;
    delete b;
    delete c;
}
user_value barrier_user_value(const signal_barrier<void(user_value)>& b) { return b.value<0>(); }
int barrier_value(const signal_barrier<void(int)>& b) { return b.value<0>(); }
}
