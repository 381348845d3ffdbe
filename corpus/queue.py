H = 'lib/net/shared_deque.h'
POP = '''  std::unique_lock<std::mutex> lock(mMutex);
  while (mDeck.empty()) {
    mCond.wait(lock);
  }
  mDeck.pop_front();
'''
FRONT = '''  std::unique_lock<std::mutex> lock(mMutex);
  while (mDeck.empty()) {
    mCond.wait(lock);
  }
  return mDeck.front();
'''
PC = '''  std::unique_lock<std::mutex> lock(mMutex);
  mDeck.push_back(item);
  lock.unlock();
  mCond.notify_one();
'''
PM = '''  std::unique_lock<std::mutex> lock(mMutex);
  mDeck.push_back(std::move(item));
  lock.unlock();
  mCond.notify_one();
'''
SZ = '''  std::unique_lock<std::mutex> lock(mMutex);
  auto size = mDeck.size();
  lock.unlock();
  return size;
'''
MEM = '''  std::condition_variable mCond;
'''
def m(name, old, new, *more): return (name, 'C21', 'V', [(H, old, new)] + list(more))
def q(name, old, new, *more): return (name, 'C21', 'Q', [(H, old, new)] + list(more))
ENTRIES = [
 m('pop-if', POP, POP.replace('while (', 'if (')),
 m('front-if', FRONT, FRONT.replace('while (', 'if (')),
 m('pop-back', POP, POP.replace('pop_front', 'pop_back')),
 m('front-back', FRONT, FRONT.replace('mDeck.front', 'mDeck.back')),
 m('push-front', PC, PC.replace('push_back', 'push_front')),
 m('push-twice', PC, PC.replace('mDeck.push_back(item);', 'mDeck.push_back(item); mDeck.push_back(item);')),
 m('no-notify', PM, PM.replace('  mCond.notify_one();\n', '')),
 m('notify-first', PM, '  mCond.notify_one();\n' + PM.replace('  mCond.notify_one();\n', '')),
 m('notify-when-empty', PC, '''  std::unique_lock<std::mutex> lock(mMutex);
  bool first = mDeck.empty();
  mDeck.push_back(item);
  lock.unlock();
  if (first) mCond.notify_one();
'''),
 m('unlocked-push', PC, PC.replace('mDeck.push_back(item);\n  lock.unlock();', 'lock.unlock();\n  mDeck.push_back(item);')),
 m('unlocked-size', SZ, '  return mDeck.size();\n'),
 m('late-size', SZ, '  std::unique_lock<std::mutex> lock(mMutex);\n  lock.unlock();\n  return mDeck.size();\n'),
 m('unlocked-test', POP, '''  while (mDeck.empty()) {
    std::unique_lock<std::mutex> lock(mMutex);
    mCond.wait(lock);
  }
  std::unique_lock<std::mutex> lock(mMutex);
  mDeck.pop_front();
'''),
 m('two-sections', POP, '''  {
    std::unique_lock<std::mutex> lock(mMutex);
    while (mDeck.empty()) mCond.wait(lock);
  }
  std::unique_lock<std::mutex> lock(mMutex);
  mDeck.pop_front();
'''),
 m('wait-unconditional', FRONT, FRONT.replace('''while (mDeck.empty()) {
    mCond.wait(lock);
  }''', 'do { mCond.wait(lock); } while (mDeck.empty());')),
 m('drop-when-full', PC, PC.replace('mDeck.push_back(item);', 'if (mDeck.size() < 4096) mDeck.push_back(item);')),
 m('drop-oldest', PM, PM.replace('mDeck.push_back', 'if (mDeck.size() >= 1024) mDeck.pop_front();\n  mDeck.push_back')),
 m('pop-clear', POP, POP.replace('mDeck.pop_front()', 'mDeck.clear()')),
 m('size-off', SZ, SZ.replace('return size;', 'return size ? size - 1 : 0;')),
 m('second-mutex', SZ, SZ.replace('mMutex', 'mOther'), (H, '  std::mutex mMutex;', '  std::mutex mMutex;\n  std::mutex mOther;')),
 m('second-cond', PC, PC.replace('mCond', 'mCond2'), (H, MEM, MEM + '  std::condition_variable mCond2;\n')),
 m('local-mutex', PC, '  std::mutex m;\n' + PC.replace('(mMutex)', '(m)')),
 m('push-default', PM, PM.replace('mDeck.push_back(std::move(item))', 'mDeck.emplace_back()')),
 m('push-sorted', PC, PC.replace('mDeck.push_back(item);', 'if (mDeck.size() > 2) mDeck.push_front(item); else mDeck.push_back(item);')),
 m('wait-for', POP, POP.replace('while (mDeck.empty()) {\n    mCond.wait(lock);\n  }', 'mCond.wait_for(lock, std::chrono::seconds(5), [this] { return !mDeck.empty(); });'), (H, '#include <queue>', '#include <queue>\n#include <chrono>')),
 m('wait-pred-size', FRONT, FRONT.replace('while (mDeck.empty()) {\n    mCond.wait(lock);\n  }', 'mCond.wait(lock, [this] { return mDeck.size() > 1; });')),
 m('lock-guard-twice', SZ, '  std::lock_guard<std::mutex> lock(mMutex);\n  auto size = [this] { std::lock_guard<std::mutex> l(mMutex); return mDeck.size(); };\n  return size();\n'),
 m('moved-in-two-steps', PM, '''  {
    std::lock_guard<std::mutex> lock(mMutex);
    mDeck.emplace_back();
  }
  std::lock_guard<std::mutex> lock(mMutex);
  mDeck.back() = std::move(item);
  mCond.notify_one();
'''),
 # the same behaviour
 q('pred', POP, POP.replace('while (mDeck.empty()) {\n    mCond.wait(lock);\n  }', 'mCond.wait(lock, [this] { return !mDeck.empty(); });')),
 q('pred-ref', FRONT, FRONT.replace('while (mDeck.empty()) {\n    mCond.wait(lock);\n  }', 'mCond.wait(lock, [&] { return mDeck.size() > 0; });')),
 q('size-test', POP, POP.replace('mDeck.empty()', 'mDeck.size() == 0')),
 q('guard', SZ, '  std::lock_guard<std::mutex> lock(mMutex);\n  return mDeck.size();\n'),
 q('scoped', SZ, '  std::scoped_lock lock(mMutex);\n  return mDeck.size();\n'),
 q('scope', PC, '''  {
    std::lock_guard<std::mutex> lock(mMutex);
    mDeck.push_back(item);
  }
  mCond.notify_one();
'''),
 q('notify-locked', PC, '  std::unique_lock<std::mutex> lock(mMutex);\n  mDeck.push_back(item);\n  mCond.notify_one();\n'),
 q('notify-all', PM, PM.replace('notify_one', 'notify_all')),
 q('emplace', PM, PM.replace('push_back', 'emplace_back')),
 q('manual', SZ, '  mMutex.lock();\n  auto size = mDeck.size();\n  mMutex.unlock();\n  return size;\n'),
 q('delegate', PC, '  PushBack(T(item));\n'),
 q('erase', POP, POP.replace('mDeck.pop_front()', 'mDeck.erase(mDeck.begin())')),
 q('begin', FRONT, FRONT.replace('mDeck.front()', '*mDeck.begin()')),
 q('helper', POP, '  auto lock = WaitNonEmpty();\n  mDeck.pop_front();\n', (H, MEM, MEM + '''  std::unique_lock<std::mutex> WaitNonEmpty() {
    std::unique_lock<std::mutex> lock(mMutex);
    while (mDeck.empty()) mCond.wait(lock);
    return lock;
  }
''')),
 q('helper-ref', POP, '  std::unique_lock<std::mutex> lock(mMutex);\n  Wait(lock);\n  mDeck.pop_front();\n', (H, MEM, MEM + '''  void Wait(std::unique_lock<std::mutex>& lock) {
    for (;;) {
      if (!mDeck.empty()) return;
      mCond.wait(lock);
    }
  }
''')),
 q('queue-adaptor', '  std::deque<T, Allocator> mDeck;', '  std::queue<T, std::deque<T, Allocator>> mDeck;', (H, 'mDeck.push_back(item)', 'mDeck.push(item)'), (H, 'mDeck.push_back(std::move(item))', 'mDeck.push(std::move(item))'), (H, 'mDeck.pop_front()', 'mDeck.pop()')),
 q('list', '  std::deque<T, Allocator> mDeck;', '  std::list<T, Allocator> mDeck;', (H, '#include <queue>', '#include <list>\n#include <queue>')),
 q('rename', '  std::mutex mMutex;', '  mutable std::mutex mLock;', (H, '(mMutex)', '(mLock)'), (H, '(mMutex)', '(mLock)'), (H, '(mMutex)', '(mLock)'), (H, '(mMutex)', '(mLock)'), (H, '(mMutex)', '(mLock)')),
 q('counter', '  std::mutex mMutex;', '  std::mutex mMutex;\n  std::size_t mTotal = 0;', (H, 'mDeck.push_back(item);', 'mDeck.push_back(item);\n  ++mTotal;')),
 q('atomic-counter', '  std::mutex mMutex;', '  std::mutex mMutex;\n  std::atomic<std::size_t> mTotal{0};', (H, 'mDeck.push_back(item);', 'mDeck.push_back(item);\n  ++mTotal;'), (H, '#include <queue>', '#include <atomic>\n#include <queue>')),
 q('deferred-lock', SZ, '  std::unique_lock<std::mutex> lock(mMutex, std::defer_lock);\n  lock.lock();\n  return mDeck.size();\n'),
]
