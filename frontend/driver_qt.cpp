// Instantiates the templates of the Qt specific headers, see driver.cpp
#include <stdexcept>
#include <functional>
#include <memory>
#include <string>
#include <xdispatch/dispatch.h>
#include <xdispatch/signals.h>
#include <xdispatch/backend_qt.h>
#include <QtCore/QObject>

struct user_qobject : QObject
{
    void member(int);
};

namespace xdrv {
using namespace xdispatch;
void qt_connect_member(signal<void(int)>& s, user_qobject* r, void (user_qobject::*f)(int), const queue& q, notification_mode m)
{
    qt5::connect(s, r, f, q, m);
}
void qt_connect_functor(signal<void(int)>& s, QObject* r, const std::function<void(int)>& f, const queue& q, notification_mode m)
{
    qt5::connect(s, r, f, q, m);
}
void qt_disconnect(signal<void(int)>& s, QObject* r)
{
    qt5::disconnect(s, r);
}
}
