F = 'lib/net/channel.cc'
H = 'lib/net/channel.h'
JOB = '''    while (true) {
      auto& message = mSendQueue.Front();
      // an empty entry is put in the queue by Close.
      if (!message) break;
      mConnector->Send(message->data(), message->size());
      mSendQueue.PopFront();
    }
'''
OPEN = '''  mConnector->Connect();
  mSender = std::async(std::launch::async, [&]() {
''' + JOB + '''  });
'''
SEND = '''  mSendQueue.PushBack(std::vector<unsigned char>(buffer, buffer + size));
'''
CLOSE = '''  mSendQueue.PushBack(std::nullopt);
  mSender.wait();
  mConnector->Close();
  // rethrows if sending failed.
  mSender.get();
'''
FIELDS = '''  SharedDeque<std::optional<std::vector<unsigned char>>> mSendQueue;
'''
def m(name, old, new, *more): return (name, 'C20', 'V', [(F, old, new)] + list(more))
def q(name, old, new, *more): return (name, 'C20', 'Q', [(F, old, new)] + list(more))
ENTRIES = [
 m('close-early', CLOSE, '''  mSendQueue.PushBack(std::nullopt);
  mConnector->Close();
  mSender.get();
'''),
 m('close-swapped', CLOSE, '''  mConnector->Close();
  mSendQueue.PushBack(std::nullopt);
  mSender.get();
'''),
 m('no-get', CLOSE, CLOSE.replace('  mSender.get();\n', '')),
 m('no-close', CLOSE, CLOSE.replace('  mConnector->Close();\n', '')),
 m('close-twice', CLOSE, CLOSE.replace('  mSender.get();\n', '  mConnector->Close();\n  mSender.get();\n')),
 m('no-sentinel', CLOSE, CLOSE.replace('  mSendQueue.PushBack(std::nullopt);\n', '')),
 m('get-before-close', CLOSE, '''  mSendQueue.PushBack(std::nullopt);
  mSender.get();
  mConnector->Close();
'''),
 m('empty-ends', JOB, JOB.replace('if (!message) break;', 'if (!message || message->empty()) break;')),
 m('pop-first', JOB, JOB.replace('''      mConnector->Send(message->data(), message->size());
      mSendQueue.PopFront();
''', '''      mSendQueue.PopFront();
      mConnector->Send(message->data(), message->size());
''')),
 m('no-pop', JOB, JOB.replace('''      mSendQueue.PopFront();
''', '')),
 m('swallow', JOB, JOB.replace('''      mConnector->Send(message->data(), message->size());
''', '''      try {
        mConnector->Send(message->data(), message->size());
      } catch (...) {
      }
''')),
 m('swallow-close', CLOSE, CLOSE.replace('mSender.get();', 'try { mSender.get(); } catch (const std::exception& e) {}')),
 m('deferred', OPEN, OPEN.replace('std::launch::async', 'std::launch::deferred')) if False else
 m('size-chunk', JOB, JOB.replace('message->size()', 'std::min<std::size_t>(message->size(), 65536)'), (F, '#include <future>', '#include <algorithm>\n#include <future>')),
 m('no-copy', SEND, '''  mSendQueue.PushBack(std::vector<unsigned char>(buffer, buffer + (size > 0 ? size - 1 : 0)));
'''),
 m('pointer-queue', SEND, '  mSendQueue.PushBack(std::make_pair(buffer, size));\n', (H, FIELDS, '  SharedDeque<std::optional<std::pair<const unsigned char*, std::size_t>>> mSendQueue;\n'), (F, 'message->data(), message->size()', 'message->first, message->second')),
 m('direct-large', SEND, '''  if (size > 65536) {
    mConnector->Send(buffer, size);
    return;
  }
''' + SEND),
 m('direct-when-empty', SEND, '''  if (mSendQueue.Size() == 0 && size > 4096) {
    mConnector->Send(buffer, size);
    return;
  }
''' + SEND, (F, '''      mConnector->Send(message->data(), message->size());
      mSendQueue.PopFront();
''', '''      auto taken = std::move(*message);
      mSendQueue.PopFront();
      mConnector->Send(taken.data(), taken.size());
''')),
 m('stop-flag', JOB, JOB.replace('while (true)', 'while (!mStop)'), (F, '  mSendQueue.PushBack(std::nullopt);', '  mStop = true;\n  mSendQueue.PushBack(std::nullopt);'), (H, FIELDS, FIELDS + '  std::atomic<bool> mStop{false};\n'), (H, '#include <future>', '#include <atomic>\n#include <future>')),
 m('plain-flag', JOB, JOB.replace('if (!message) break;', 'if (!message && mStop) break;'), (F, '  mSendQueue.PushBack(std::nullopt);', '  mSendQueue.PushBack(std::nullopt);\n  mStop = true;'), (H, FIELDS, FIELDS + '  bool mStop = false;\n')),
 m('drain-by-size', CLOSE, '''  while (mSendQueue.Size() > 0) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  mConnector->Close();
  mSendQueue.PushBack(std::nullopt);
  mSender.get();
''', (F, '#include <memory>', '#include <memory>\n#include <thread>\n#include <chrono>'), (F, '''      mConnector->Send(message->data(), message->size());
      mSendQueue.PopFront();
''', '''      auto taken = std::move(*message);
      mSendQueue.PopFront();
      mConnector->Send(taken.data(), taken.size());
''')),
 m('wait-for', CLOSE, CLOSE.replace('mSender.wait();', 'mSender.wait_for(std::chrono::seconds(1));'), (F, '#include <memory>', '#include <chrono>\n#include <memory>')),
 m('job-per-message', SEND, '''  mSender = std::async(std::launch::async, [this, buffer, size]() { mConnector->Send(buffer, size); });
'''),
 m('counter-race', JOB, JOB.replace('mSendQueue.PopFront();', 'mSendQueue.PopFront();\n      mPending--;'), (F, SEND, SEND + '  mPending++;\n'), (H, FIELDS, FIELDS + '  std::size_t mPending = 0;\n')),
 m('coalesce-lost', SEND, '''  mPending.insert(mPending.end(), buffer, buffer + size);
  if (mPending.size() >= 1024) {
    mSendQueue.PushBack(std::move(mPending));
    mPending.clear();
  }
''', (H, FIELDS, FIELDS + '  std::vector<unsigned char> mPending;\n')) if False else
 m('dedupe', SEND, '''  if (size == 0) return;
  if (size == mLast) { mLast = 0; return; }
  mLast = size;
''' + SEND, (H, FIELDS, FIELDS + '  std::size_t mLast = 0;\n')),
 q('connect-late', OPEN, OPEN.replace('  mConnector->Connect();\n', '') + '  mConnector->Connect();\n'),
 m('front-sentinel', 'mDeck.push_back(std::move(item))', 'mDeck.push_front(std::move(item))') if False else
 ('queue-lifo', 'C20', 'V', [('lib/net/shared_deque.h', 'mDeck.push_back(std::move(item))', 'mDeck.push_front(std::move(item))')]),
 m('thread-detached', OPEN, '''  mConnector->Connect();
  std::thread t([this]() {
''' + JOB + '''  });
  t.detach();
''', (F, CLOSE, '  mSendQueue.PushBack(std::nullopt);\n  mConnector->Close();\n'), (F, '#include <memory>', '#include <memory>\n#include <thread>')),
 m('close-once-queue-empty', CLOSE, '''  if (mSendQueue.Size() == 0) {
    mConnector->Close();
    mSendQueue.PushBack(std::nullopt);
    mSender.get();
    return;
  }
''' + CLOSE, (F, '''      mConnector->Send(message->data(), message->size());
      mSendQueue.PopFront();
''', '''      auto taken = std::move(*message);
      mSendQueue.PopFront();
      mConnector->Send(taken.data(), taken.size());
''')),
 ('plain-state', 'C20', 'V', [('lib/net/connector.h', 'std::atomic<enum State> mState{State::eIdle};', 'enum State mState = State::eIdle;')]),
 # the same behaviour
 q('move-out', JOB, JOB.replace('''      mConnector->Send(message->data(), message->size());
      mSendQueue.PopFront();
''', '''      auto taken = std::move(*message);
      mSendQueue.PopFront();
      mConnector->Send(taken.data(), taken.size());
''')),
 q('copy-out', JOB, '''    for (;;) {
      auto message = mSendQueue.Front();
      mSendQueue.PopFront();
      if (!message.has_value()) return;
      mConnector->Send(message->data(), message->size());
    }
'''),
 q('helper', OPEN, '''  mConnector->Connect();
  mSender = std::async(std::launch::async, &frn::lib::net::AsyncSenderChannel::Run, this);
''', (F, 'void frn::lib::net::AsyncSenderChannel::Close() {', 'void frn::lib::net::AsyncSenderChannel::Run() {\n' + JOB + '}\n\nvoid frn::lib::net::AsyncSenderChannel::Close() {'), (H, ' private:\n  SharedDeque', ' private:\n  void Run();\n  SharedDeque')),
 q('helper-lambda', OPEN, '''  mConnector->Connect();
  mSender = std::async(std::launch::async, [this] { Run(); });
''', (F, 'void frn::lib::net::AsyncSenderChannel::Close() {', 'void frn::lib::net::AsyncSenderChannel::Run() {\n' + JOB + '}\n\nvoid frn::lib::net::AsyncSenderChannel::Close() {'), (H, ' private:\n  SharedDeque', ' private:\n  void Run();\n  SharedDeque')),
 q('named-copy', SEND, '''  std::vector<unsigned char> message(buffer, buffer + size);
  mSendQueue.PushBack(std::move(message));
'''),
 q('optional-copy', SEND, '''  std::optional<std::vector<unsigned char>> message;
  message.emplace(buffer, buffer + size);
  mSendQueue.PushBack(message);
'''),
 q('close-catch', CLOSE, '''  mSendQueue.PushBack(std::nullopt);
  try {
    mSender.get();
  } catch (...) {
    mConnector->Close();
    throw;
  }
  mConnector->Close();
'''),
 q('close-flag', CLOSE, '''  std::optional<std::vector<unsigned char>> end;
  mSendQueue.PushBack(end);
  mSender.wait();
  mConnector->Close();
  mSender.get();
'''),
 q('skip-empty', SEND, '  if (!size) return;\n' + SEND),
 q('chunks', JOB, JOB.replace('''      mConnector->Send(message->data(), message->size());
''', '''      std::size_t half = message->size() / 2;
      mConnector->Send(message->data(), half);
      mConnector->Send(message->data() + half, message->size() - half);
''')),
 q('do-while', JOB, '''    bool more = true;
    while (more) {
      auto& message = mSendQueue.Front();
      if (message.has_value()) {
        mConnector->Send(message->data(), message->size());
        mSendQueue.PopFront();
      } else {
        more = false;
      }
    }
'''),
 q('std-thread', OPEN, '''  mConnector->Connect();
  mThread = std::thread([this]() {
    try {
''' + JOB + '''    } catch (...) {
      mFailed = true;
    }
  });
''', (F, CLOSE, '''  mSendQueue.PushBack(std::nullopt);
  mThread.join();
  mConnector->Close();
  if (mFailed) throw std::runtime_error("sending failed");
'''), (H, '  std::future<void> mSender;', '  std::thread mThread;\n  bool mFailed = false;'), (H, '#include <vector>', '#include <thread>\n#include <vector>')),
]
