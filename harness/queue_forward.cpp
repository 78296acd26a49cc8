//! Q05: the real casual-queue-forward-group on a virtual kernel. Queue manager, queue groups, service manager, servers and
//! transaction manager are peers, whose every order of answers, refusals and losses within the bounds of a scenario is
//! explored. See DESIGN.md
#include "vkc.h"

#include "queue/forward/state.h"
#include "queue/forward/handle.h"
#include "queue/common/ipc/message.h"

#include "common/message/service.h"
#include "common/message/transaction.h"
#include "common/message/event.h"
#include "common/communication/instance.h"

#include <regex>

using namespace casual;
namespace cc = casual::common;
namespace msg = casual::common::message;
namespace txm = casual::common::message::transaction;
namespace qm = casual::queue::ipc::message;
namespace qg = casual::queue::ipc::message::group;
namespace qf = casual::queue::ipc::message::forward::group;

extern "C" int sut_main( int argc, const char** argv);

namespace { queue::forward::State* sut_state = nullptr;}

queue::forward::handler_type real_handlers( queue::forward::State&) asm( "__real__ZN6casual5queue7forward8handlersERNS1_5StateE");
queue::forward::handler_type wrap_handlers( queue::forward::State& state) asm( "__wrap__ZN6casual5queue7forward8handlersERNS1_5StateE");
queue::forward::handler_type wrap_handlers( queue::forward::State& state)
{
   sut_state = &state;
   return real_handlers( state);
}

namespace
{
   //! a queue, and who has it
   struct Queue
   {
      std::string name;
      cc::strong::queue::id id;
      bool remote{};
      int group = 0;
      std::vector< int> messages;            //!< committed, and not taken
   };

   struct Group
   {
      vkc::Peer* peer{};                     //!< current incarnation
      bool alive = true;
      bool told{ true};                      //!< the event about the last loss has been sent
      cc::process::Handle lost;              //!< the incarnation that the event is about
      int incarnation = 0;
   };

   struct Forward
   {
      bool service{};
      int source = 0;
      int target = -1;                       //!< queue, also the reply queue of a service forward
      std::string name;                      //!< service
      int configured = 1, allowed = 1;       //!< as asked for, and the most since everything was handled
      casual::platform::time::unit delay{};
      int late = 0;                          //!< instances that could not be stopped, and end by themselves
      bool going{};
      bool gone{};                           //!< the target has answered that there is no such queue, and has not been looked up since then
      bool refused{};                        //!< the target has refused, and has not been used since then
      bool exempt{};                         //!< its queue group ends: nothing more is expected
   };

   enum class Stage { dequeuing, taken, empty, looking, absent, discarded, found, calling, called, failed, enqueuing, accepted, refused, committing, rolling, done};
   const char* name( Stage s)
   {
      static const char* names[] = { "dequeuing", "taken", "empty", "looking", "absent", "discarded", "found", "calling", "called", "failed", "enqueuing", "accepted", "refused", "committing", "rolling", "done"};
      return names[ int( s)];
   }

   struct Flow
   {
      int forward = 0;
      Stage stage = Stage::dequeuing;
      int message = -1;
      bool lost{};                           //!< the queue group that the dequeue was sent to is gone
      bool target_lost{};
      bool dead_server{};
      bool shutdown{}, down{};               //!< taken when shutdown was asked for, and was handled
      bool prepared{};                       //!< the first answer to commit has been given
      vkc::Peer* at{};                       //!< where the dequeue, or the enqueue, is
      cc::transaction::ID trid;
      cc::strong::correlation::id correlation;
      cc::strong::execution::id execution;

      bool live() const { return stage != Stage::done;}
   };

   struct Lookup { int queue = -1; int forward = -1; cc::strong::correlation::id correlation; cc::process::Handle process;};

   struct World
   {
      std::string scenario;
      int depth = 0, limit = 8;
      std::vector< Queue> queues;
      std::vector< Group> groups;
      std::vector< Forward> forwards;
      std::vector< Flow> flows;
      std::vector< Lookup> lookups;
      std::vector< std::string> enqueued;    //!< what the target got by committed transactions
      vkc::Peer *manager{}, *services{}, *server{}, *tm{}, *admin{};
      bool started{}, shutdown{}, down{};
      bool observed{};
      std::optional< qf::state::Reply> state;
      bool hold{};
      int held = 0;

      bool slow_lookup{};                    //!< answers of the queue manager are actions
      int max_losses = 0, losses = 0;
      std::vector< int> loseable;
      int max_refusals = 1, refusals = 0;    //!< of any kind
      int max_scales = 0, scales = 0;
      int max_shutdowns = 1, shutdowns = 0;
      int max_batches = 0, batches = 0;
      int max_ends = 0, ends = 0;            //!< a queue group forgets its dequeues
      bool two_answers{};                    //!< the transaction manager tells prepared and committed
      bool pid_events{};
      std::vector< int> scale_to{ 0, 1, 2};
   };
   World& w = *new World;

   std::string dump()
   {
      std::ostringstream out;
      for( auto& f : w.forwards)
         out << ( f.service ? "service forward" : "queue forward") << ' ' << w.queues[ f.source].name << " configured " << f.configured << " late " << f.late << ( f.refused ? " refused" : "") << ( f.gone ? " gone" : "") << ( f.exempt ? " exempt" : "") << '\n';
      for( auto& f : w.flows)
         out << " flow of " << f.forward << ": " << name( f.stage) << " message " << f.message << ( f.lost ? " lost" : "") << ( f.target_lost ? " target lost" : "") << ( f.dead_server ? " server dead" : "") << ( f.prepared ? " prepared" : "") << ( f.shutdown ? " shutdown" : "") << ( f.down ? " down" : "") << '\n';
      for( auto& q : w.queues) { out << ' ' << q.name << ':'; for( auto m : q.messages) out << ' ' << m; out << '\n';}
      for( auto& g : w.groups) out << " group" << ( g.alive ? " alive" : " lost") << ( g.told ? "" : " (not told)") << ' ' << g.incarnation << '\n';
      for( auto& l : w.lookups) out << " lookup of " << w.queues[ l.queue].name << '\n';
      out << ( w.shutdown ? "shutdown" : "running") << '\n';
      return out.str();
   }

   [[noreturn]] void violation( const std::string& kind, const std::string& text = {}) { vk::violation( kind, text + "\n" + dump());}

   Flow* flow( const cc::strong::correlation::id& correlation)
   {
      for( auto& f : w.flows) if( f.correlation == correlation) return &f;
      return nullptr;
   }
   int index( const Flow& f) { return &f - w.flows.data();}

   int live( int forward, bool with_lost)
   {
      return std::count_if( w.flows.begin(), w.flows.end(), [=]( auto& f){ return f.forward == forward && f.live() && ( with_lost || ! f.lost);});
   }

   std::string content( int message, const char* kind = "m") { return kind + std::to_string( message) + std::string( 20 + message, 'x');}
   auto payload( const std::string& text)
   {
      cc::buffer::Payload result{ "X_OCTET/"};
      result.data.resize( text.size());
      std::memcpy( result.data.data(), text.data(), text.size());
      return result;
   }
   std::string text( const cc::buffer::Payload& p) { return std::string( reinterpret_cast< const char*>( p.data.data()), p.data.size());}

   bool same_process( const cc::process::Handle& a) { return a == cc::process::handle();}

   // ------------------------------------------------------------ peers

   bool known( int queue)
   {
      auto& g = w.groups[ w.queues[ queue].group];
      return g.alive;
   }

   void answer_lookup( std::size_t i)
   {
      auto l = w.lookups[ i];
      w.lookups.erase( w.lookups.begin() + i);
      auto& q = w.queues[ l.queue];
      qm::lookup::Reply reply{ w.groups[ q.group].peer->handle};
      reply.correlation = l.correlation;
      reply.queue = q.id;
      reply.name = q.name;
      reply.order = q.remote ? 1 : 0;
      for( auto& f : w.forwards) if( f.target == l.queue) f.gone = f.going = false;
      vkc::to_self( reply);
   }

   void answer_lookups()
   {
      for( std::size_t i = 0; i < w.lookups.size();)
         if( known( w.lookups[ i].queue)) answer_lookup( i); else ++i;
   }

   void on_dequeue( int group, qg::dequeue::Request& m)
   {
      vk::evaluated( 2);
      int forward = -1;
      for( int f = 0; f < int( w.forwards.size()); ++f)
         if( w.queues[ w.forwards[ f].source].name == m.name && w.queues[ w.forwards[ f].source].id == m.queue) forward = f;
      if( forward < 0 || w.queues[ w.forwards[ forward].source].group != group) violation( "a dequeue from a queue that is not configured", m.name);
      if( ! same_process( m.process)) violation( "a dequeue with another process");
      if( ! m.block) violation( "a dequeue that does not wait");
      if( flow( m.correlation)) violation( "a dequeue with a correlation that is used");
      if( ! m.trid) violation( "a dequeue without a transaction");
      for( auto& f : w.flows) if( cc::transaction::global::ID{ cc::transaction::id::range::global( f.trid)} == cc::transaction::global::ID{ cc::transaction::id::range::global( m.trid)}) violation( "a dequeue in a transaction that is used");
      if( w.down) violation( "a dequeue after shutdown");
      if( live( forward, false) + 1 > w.forwards[ forward].allowed) violation( "more instances than configured");
      Flow f;
      f.forward = forward;
      f.trid = m.trid;
      f.correlation = m.correlation;
      f.execution = m.execution;
      f.at = w.groups[ group].peer;
      w.flows.push_back( f);
      vk::note( "   dequeue from " + m.name + " (flow " + std::to_string( w.flows.size() - 1) + ")");
   }

   void on_forget( qg::dequeue::forget::Request& m)
   {
      auto f = flow( m.correlation);
      if( ! f) violation( "an unknown dequeue is forgotten");
      auto reply = msg::reverse::type( m);
      reply.discarded = f->stage == Stage::dequeuing;
      if( reply.discarded) f->stage = Stage::done;
      else ++w.forwards[ f->forward].late;
      vk::note( "   forget flow " + std::to_string( index( *f)) + ( reply.discarded ? "" : ": too late"));
      vkc::push( m.process.ipc, reply);
   }

   void on_enqueue( int group, qg::enqueue::Request& m)
   {
      vk::evaluated( 3);
      auto f = flow( m.correlation);
      if( ! f) violation( "an enqueue that is not part of a forward", m.name);
      auto& forward = w.forwards[ f->forward];
      auto expected = forward.service ? Stage::called : Stage::taken;
      if( f->stage != expected) violation( "an enqueue that is not due", name( f->stage));
      if( f->down && ! forward.service) violation( "a message taken in shutdown is forwarded");
      if( forward.target < 0) violation( "an enqueue of a reply without a reply queue");
      auto& q = w.queues[ forward.target];
      if( q.group != group || q.name != m.name || q.id != m.queue) violation( "an enqueue to the wrong queue", m.name);
      if( ! same_process( m.process)) violation( "an enqueue with another process");
      if( m.trid != f->trid) violation( "an enqueue in another transaction");
      if( text( m.message.payload) != content( f->message, forward.service ? "r" : "m") || m.message.payload.type != "X_OCTET/") violation( "an enqueue of something else", text( m.message.payload));
      if( ! forward.service)
      {
         if( m.message.attributes.properties != "p" + std::to_string( f->message) || m.message.attributes.reply != "q" + std::to_string( f->message)) violation( "a message is forwarded without its properties");
         if( m.message.id == vkc::uuid( 0x70, f->message)) violation( "a message is forwarded with the same id");
      }
      if( forward.delay > casual::platform::time::unit::zero())
      {
         auto until = m.message.attributes.available;
         auto earliest = casual::platform::time::point::type{ std::chrono::duration_cast< casual::platform::time::unit>( std::chrono::nanoseconds{ vk::kernel::now()} + forward.delay)};
         if( until > earliest || until + std::chrono::milliseconds{ 100} < earliest) violation( "a message is not delayed as configured");
      }
      else if( m.message.attributes.available > casual::platform::time::point::type{ std::chrono::duration_cast< casual::platform::time::unit>( std::chrono::nanoseconds{ vk::kernel::now()})})
         violation( "a message is delayed");
      if( forward.gone) violation( "a queue that is gone is used again without a lookup", m.name);
      f->stage = Stage::enqueuing;
      forward.refused = false;
      f->at = w.groups[ group].peer;
      vk::note( "   enqueue to " + m.name + " (flow " + std::to_string( index( *f)) + ")");
   }

   void incarnate( int g)
   {
      auto& group = w.groups[ g];
      group.alive = true;
      ++group.incarnation;
      auto& p = vkc::peer( "group" + std::to_string( g) + "." + std::to_string( group.incarnation), 0x30 + g, group.incarnation);
      group.peer = &p;
      p.on< qg::dequeue::Request>( [g]( auto& m){ on_dequeue( g, m);});
      p.on< qg::dequeue::forget::Request>( []( auto& m){ on_forget( m);});
      p.on< qg::enqueue::Request>( [g]( auto& m){ on_enqueue( g, m);});
   }

   void finish( Flow& f, bool commit)
   {
      auto& forward = w.forwards[ f.forward];
      f.stage = Stage::done;
      if( f.message < 0) return;
      if( commit)
      {
         w.enqueued.push_back( std::to_string( f.message));
         if( std::count( w.enqueued.begin(), w.enqueued.end(), w.enqueued.back()) > 1) violation( "a message is forwarded twice");
      }
      else w.queues[ forward.source].messages.insert( w.queues[ forward.source].messages.begin(), f.message);
   }

   void boot_peers()
   {
      namespace identity = cc::communication::instance::identity;
      auto& manager = vkc::peer( "queue-manager", 0x20, 1);
      w.manager = &manager;
      vkc::domain().singleton( identity::queue::manager, manager.handle);
      manager.on< qf::Connect>( []( auto& m)
      {
         if( ! same_process( m.process)) violation( "a connect with another process");
         w.started = true;
      });
      manager.on< qf::configuration::update::Reply>( []( auto&){});
      manager.on< qm::lookup::Request>( []( auto& m)
      {
         vk::evaluated();
         if( ! same_process( m.process)) violation( "a lookup with another process");
         if( m.context.semantic != decltype( m.context.semantic)::wait) violation( "a lookup that does not wait");
         Lookup l;
         for( int q = 0; q < int( w.queues.size()); ++q) if( w.queues[ q].name == m.name) l.queue = q;
         if( l.queue < 0) violation( "a lookup of a queue that is not configured", m.name);
         for( auto& other : w.lookups) if( other.correlation == m.correlation) violation( "a lookup with a correlation that is used");
         l.correlation = m.correlation;
         l.process = m.process;
         w.lookups.push_back( l);
         if( ! w.slow_lookup && known( l.queue)) answer_lookup( w.lookups.size() - 1);
      });
      manager.on< qm::lookup::discard::Request>( []( auto& m)
      {
         auto reply = msg::reverse::type( m);
         auto found = std::find_if( w.lookups.begin(), w.lookups.end(), [&]( auto& l){ return l.correlation == m.correlation;});
         if( found == w.lookups.end()) reply.state = decltype( reply.state)::replied;
         else { reply.state = decltype( reply.state)::discarded; w.lookups.erase( found);}
         vkc::push( m.process.ipc, reply);
      });

      auto& services = vkc::peer( "service-manager", 0x21, 1);
      w.services = &services;
      vkc::domain().singleton( identity::service::manager, services.handle);
      services.on< msg::service::lookup::Request>( []( auto& m)
      {
         vk::evaluated();
         auto f = flow( m.correlation);
         if( ! f || ! w.forwards[ f->forward].service || f->stage != Stage::taken) violation( "a service lookup that is not due", m.requested);
         if( f->down) violation( "a message taken in shutdown is forwarded");
         if( m.requested != w.forwards[ f->forward].name) violation( "a lookup of another service", m.requested);
         if( ! same_process( m.process)) violation( "a lookup with another process");
         if( m.context.semantic != decltype( m.context.semantic)::wait) violation( "a service lookup that does not wait");
         f->stage = Stage::looking;
      });
      services.on< msg::service::lookup::discard::Request>( []( auto& m)
      {
         auto f = flow( m.correlation);
         if( ! f || ! w.forwards[ f->forward].service) violation( "an unknown service lookup is discarded");
         if( m.requested != w.forwards[ f->forward].name) violation( "a discard of another service", m.requested);
         auto reply = msg::reverse::type( m);
         if( f->stage == Stage::looking || f->stage == Stage::found || f->stage == Stage::absent)
         {
            reply.state = f->stage == Stage::looking ? decltype( reply.state)::discarded : decltype( reply.state)::replied;
            f->stage = Stage::discarded;
         }
         else
            violation( "a service lookup that is done is discarded", name( f->stage));
         vkc::push( m.process.ipc, reply);
      });
      services.other = []( auto&){};

      auto& server = vkc::peer( "server", 0x22, 1);
      w.server = &server;
      server.on< msg::service::call::callee::Request>( []( auto& m)
      {
         vk::evaluated( 2);
         auto f = flow( m.correlation);
         if( ! f || f->stage != Stage::found) violation( "a call that is not due", f ? name( f->stage) : "unknown");
         auto& forward = w.forwards[ f->forward];
         if( m.service.name != forward.name) violation( "a call of another service", m.service.name);
         if( m.trid != f->trid) violation( "a call in another transaction");
         if( ! same_process( m.process)) violation( "a call with another process");
         if( text( m.buffer) != content( f->message) || m.buffer.type != "X_OCTET/") violation( "a call with something else", text( m.buffer));
         if( m.flags != decltype( m.flags){}) violation( "a call with flags");
         f->stage = Stage::calling;
      });

      auto& tm = vkc::peer( "transaction-manager", 0x23, 1);
      w.tm = &tm;
      vkc::domain().singleton( identity::transaction::manager, tm.handle);
      tm.on< txm::commit::Request>( []( auto& m)
      {
         vk::evaluated();
         auto f = flow( m.correlation);
         if( ! f || m.trid != f->trid) violation( "a commit of a transaction that is not a forward's");
         if( ! same_process( m.process)) violation( "a commit with another process");
         auto& forward = w.forwards[ f->forward];
         auto expected = forward.target >= 0 ? Stage::accepted : Stage::called;
         if( f->stage != expected) violation( "a commit though the message is not accepted", name( f->stage));
         f->stage = Stage::committing;
      });
      tm.on< txm::rollback::Request>( []( auto& m)
      {
         vk::evaluated();
         auto f = flow( m.correlation);
         if( ! f || m.trid != f->trid) violation( "a rollback of a transaction that is not a forward's");
         if( ! same_process( m.process)) violation( "a rollback with another process");
         auto& forward = w.forwards[ f->forward];
         bool reason = false;
         switch( f->stage)
         {
            case Stage::empty: case Stage::absent: case Stage::discarded: case Stage::failed: case Stage::refused: reason = true; break;
            case Stage::taken: case Stage::called: case Stage::enqueuing: case Stage::accepted:
            {
               reason = f->target_lost || ( f->stage == Stage::taken && forward.refused) || ( f->stage == Stage::taken && f->shutdown);
               if( forward.target >= 0 && ! w.groups[ w.queues[ forward.target].group].alive) reason = true;
               // the group is back, but the forward has not been told yet
               if( forward.target >= 0 && w.groups[ w.queues[ forward.target].group].incarnation > 1 && f->stage != Stage::accepted) reason = true;
               break;
            }
            default: break;
         }
         if( ! reason) violation( "a rollback without a reason", name( f->stage));
         f->stage = Stage::rolling;
      });
      tm.other = []( auto& c){ violation( "unexpected message to the transaction manager", vkc::text( c.type()));};

      auto& admin = vkc::peer( "admin", 0x24, 1);
      w.admin = &admin;
      admin.on< qf::state::Reply>( []( auto& m){ w.state = m;});
   }

   void configure()
   {
      qf::configuration::update::Request request{ w.manager->handle};
      request.model.alias = "forwards";
      for( auto& f : w.forwards)
      {
         if( f.service)
         {
            auto& s = request.model.services.emplace_back();
            s.alias = "f" + std::to_string( &f - w.forwards.data());
            s.source = w.queues[ f.source].name;
            s.instances = f.configured;
            s.target.service = f.name;
            if( f.target >= 0) { auto& r = s.reply.emplace(); r.queue = w.queues[ f.target].name; r.delay = f.delay;}
         }
         else
         {
            auto& s = request.model.queues.emplace_back();
            s.alias = "f" + std::to_string( &f - w.forwards.data());
            s.source = w.queues[ f.source].name;
            s.instances = f.configured;
            s.target.queue = w.queues[ f.target].name;
            s.target.delay = f.delay;
         }
      }
      vkc::to_self( request);
   }

   // ------------------------------------------------------------ actions

   using Action = std::pair< std::string, std::function< void()>>;

   void refuse() { ++w.refusals;}

   void send_dequeued( Flow& f, bool empty)
   {
      qg::dequeue::Reply reply;
      reply.correlation = f.correlation;
      reply.execution = f.execution;
      if( empty) { f.stage = Stage::empty; reply.code = decltype( reply.code)::system;}
      else
      {
         auto& q = w.queues[ w.forwards[ f.forward].source];
         f.message = q.messages.front();
         q.messages.erase( q.messages.begin());
         f.stage = Stage::taken;
         f.shutdown = w.shutdown; f.down = w.down;
         auto& m = reply.message.emplace();
         m.id = vkc::uuid( 0x70, f.message);
         m.attributes.properties = "p" + std::to_string( f.message);
         m.attributes.reply = "q" + std::to_string( f.message);
         m.payload = payload( content( f.message));
      }
      vkc::to_self( reply);
   }

   void send_called( Flow& f, bool ok)
   {
      msg::service::call::Reply reply;
      reply.correlation = f.correlation;
      reply.execution = f.execution;
      reply.code.result = ok ? cc::code::xatmi::ok : cc::code::xatmi::service_fail;
      if( ok) reply.buffer = payload( content( f.message, "r"));
      f.stage = ok ? Stage::called : Stage::failed;
      vkc::to_self( reply);
   }

   void lose( int g)
   {
      auto& group = w.groups[ g];
      ++w.losses;
      group.alive = false;
      group.told = false;
      group.lost = group.peer->handle;
      group.peer->die();
      for( auto& f : w.flows)
      {
         if( ! f.live()) continue;
         auto& forward = w.forwards[ f.forward];
         if( forward.target >= 0 && w.queues[ forward.target].group == g) f.target_lost = true;
         if( f.stage == Stage::dequeuing && f.at == group.peer) f.lost = true;
      }
   }

   void tell( int g)
   {
      auto& group = w.groups[ g];
      group.told = true;
      for( auto& f : w.flows) if( f.live() && f.lost && f.at->handle == group.lost) f.stage = Stage::done;
      if( w.pid_events)
      {
         msg::event::process::Exit event;
         event.state.pid = group.lost.pid;
         event.state.reason = decltype( event.state.reason)::core;
         vkc::to_self( event);
      }
      else
      {
         msg::event::ipc::Destroyed event;
         event.process = group.lost;
         vkc::to_self( event);
      }
   }

   std::vector< Action> actions()
   {
      std::vector< Action> result;
      auto add = [&]( std::string n, std::function< void()> f){ result.emplace_back( std::move( n), std::move( f));};
      bool refuse_more = w.refusals < w.max_refusals;

      for( std::size_t i = 0; i < w.flows.size(); ++i)
      {
         auto& f = w.flows[ i];
         auto& forward = w.forwards[ f.forward];
         auto text = " (flow " + std::to_string( i) + ")";
         switch( f.stage)
         {
            case Stage::dequeuing:
               if( f.lost) break;
               if( ! w.queues[ forward.source].messages.empty()) add( "a message is dequeued" + text, [i]{ send_dequeued( w.flows[ i], false);});
               if( refuse_more) add( "dequeue fails" + text, [i]{ refuse(); send_dequeued( w.flows[ i], true);});
               break;
            case Stage::looking:
               add( "service found" + text, [i]
               {
                  auto& f = w.flows[ i];
                  f.stage = Stage::found;
                  msg::service::lookup::Reply reply{ w.server->handle};
                  reply.correlation = f.correlation; reply.execution = f.execution;
                  reply.service.name = w.forwards[ f.forward].name;
                  vkc::to_self( reply);
               });
               if( refuse_more)
               {
                  add( "service absent" + text, [i]
                  {
                     refuse();
                     auto& f = w.flows[ i];
                     f.stage = Stage::absent;
                     msg::service::lookup::Reply reply;
                     reply.correlation = f.correlation; reply.execution = f.execution;
                     reply.service.name = w.forwards[ f.forward].name;
                     reply.state = decltype( reply.state)::absent;
                     vkc::to_self( reply);
                  });
                  add( "service found at a server that is gone" + text, [i]
                  {
                     refuse();
                     auto& f = w.flows[ i];
                     f.stage = Stage::found; f.dead_server = true;
                     auto& gone = vkc::peer( "gone", 0x25, i);
                     gone.die();
                     msg::service::lookup::Reply reply{ gone.handle};
                     reply.correlation = f.correlation; reply.execution = f.execution;
                     reply.service.name = w.forwards[ f.forward].name;
                     vkc::to_self( reply);
                  });
               }
               break;
            case Stage::calling:
               if( ! f.dead_server) add( "service succeeds" + text, [i]{ send_called( w.flows[ i], true);});
               if( f.dead_server) add( "service fails" + text, [i]{ send_called( w.flows[ i], false);});
               else if( refuse_more) add( "service fails" + text, [i]{ refuse(); send_called( w.flows[ i], false);});
               break;
            case Stage::enqueuing:
            {
               if( ! f.at->alive) break;
               auto reply = [i]( bool ok)
               {
                  auto& f = w.flows[ i];
                  f.stage = ok ? Stage::accepted : Stage::refused;
                  if( ! ok) w.forwards[ f.forward].refused = w.forwards[ f.forward].going = true;
                  qg::enqueue::Reply reply;
                  reply.correlation = f.correlation; reply.execution = f.execution;
                  if( ok) reply.id = vkc::uuid( 0x71, i); else reply.code = decltype( reply.code)::no_queue;
                  vkc::to_self( reply);
               };
               add( "enqueued" + text, [=]{ reply( true);});
               if( refuse_more) add( "enqueue refused" + text, [=]{ refuse(); reply( false);});
               break;
            }
            case Stage::committing:
            {
               auto reply = [i]( txm::commit::reply::Stage stage, cc::code::tx code)
               {
                  auto& f = w.flows[ i];
                  txm::commit::Reply reply{ w.tm->handle};
                  reply.correlation = f.correlation; reply.execution = f.execution;
                  reply.trid = f.trid; reply.stage = stage; reply.state = code;
                  if( stage == decltype( stage)::prepare) f.prepared = true;
                  else finish( f, stage == decltype( stage)::commit);
                  vkc::to_self( reply);
               };
               using S = txm::commit::reply::Stage;
               if( ! f.prepared && w.two_answers) add( "prepared" + text, [=]{ reply( S::prepare, cc::code::tx::ok);});
               add( "committed" + text, [=]{ reply( S::commit, cc::code::tx::ok);});
               if( ! f.prepared && refuse_more) add( "commit gives rollback" + text, [=]{ refuse(); reply( S::rollback, cc::code::tx::rollback);});
               break;
            }
            case Stage::rolling:
            {
               auto reply = [i]( bool ok)
               {
                  auto& f = w.flows[ i];
                  txm::rollback::Reply reply{ w.tm->handle};
                  reply.correlation = f.correlation; reply.execution = f.execution;
                  reply.trid = f.trid;
                  reply.stage = ok ? decltype( reply.stage)::rollback : decltype( reply.stage)::error;
                  reply.state = ok ? cc::code::tx::ok : cc::code::tx::fail;
                  finish( f, false);
                  vkc::to_self( reply);
               };
               add( "rolled back" + text, [=]{ reply( true);});
               if( refuse_more) add( "rollback fails" + text, [=]{ refuse(); reply( false);});
               break;
            }
            default: break; // in a batch
         }
      }

      if( w.slow_lookup)
         for( std::size_t i = 0; i < w.lookups.size(); ++i)
            if( known( w.lookups[ i].queue))
               add( "the queue manager tells of " + w.queues[ w.lookups[ i].queue].name, [i]{ answer_lookup( i);});

      for( int g = 0; g < int( w.groups.size()); ++g)
      {
         auto& group = w.groups[ g];
         if( ! group.told) add( "the loss of group " + std::to_string( g) + " is told", [g]{ tell( g);});
         if( ! group.alive) add( "group " + std::to_string( g) + " is back", [g]{ incarnate( g); if( ! w.slow_lookup) answer_lookups();});
         if( group.alive && group.told && w.losses < w.max_losses && std::count( w.loseable.begin(), w.loseable.end(), g))
            add( "group " + std::to_string( g) + " is lost", [g]{ lose( g);});
         if( group.alive && w.ends < w.max_ends)
            add( "group " + std::to_string( g) + " ends its dequeues", [g]
            {
               ++w.ends;
               for( auto& f : w.flows)
                  if( f.stage == Stage::dequeuing && f.at == w.groups[ g].peer)
                  {
                     f.stage = Stage::done;
                     w.forwards[ f.forward].exempt = true;
                     qg::dequeue::forget::Request request{ w.groups[ g].peer->handle};
                     request.correlation = f.correlation;
                     vkc::to_self( request);
                  }
            });
      }

      if( ! w.shutdown && w.scales < w.max_scales)
         for( int f = 0; f < int( w.forwards.size()); ++f)
            for( int n : w.scale_to)
               if( n != w.forwards[ f].configured)
                  add( "forward " + std::to_string( f) + " is scaled to " + std::to_string( n), [f, n]
                  {
                     ++w.scales;
                     w.forwards[ f].configured = n;
                     w.forwards[ f].allowed = std::max( n, w.forwards[ f].allowed);
                     w.forwards[ f].exempt = false;
                     w.forwards[ f].late = 0;
                     configure();
                  });
      if( ! w.shutdown && w.shutdowns < w.max_shutdowns)
         add( "shutdown", []
         {
            ++w.shutdowns;
            w.shutdown = true;
            vkc::to_self( msg::shutdown::Request{ w.manager->handle});
         });

      if( w.batches < w.max_batches && w.held == 0 && ! result.empty())
         add( "two at once", []{ ++w.batches; w.hold = true;});
      return result;
   }

   void perform()
   {
      auto possible = actions();
      if( possible.empty()) vk::finish( "nothing left");
      std::vector< std::string> names;
      for( auto& a : possible) names.push_back( a.first);
      auto choice = vk::choose( names, std::to_string( w.depth + 1));
      ++w.depth;
      w.observed = false;
      vk::transition();
      possible[ choice].second();
   }

   //! everything is handled, and waits for someone else
   void quiescent()
   {
      vk::evaluated( 3);
      w.down = w.shutdown;
      for( auto& f : w.forwards) f.allowed = f.configured;
      for( auto& f : w.flows) if( f.stage == Stage::found && f.dead_server) f.stage = Stage::calling;
      for( auto& f : w.flows)
      {
         if( ! f.live()) continue;
         switch( f.stage)
         {
            case Stage::dequeuing: case Stage::looking: case Stage::calling: case Stage::committing: case Stage::rolling: break;
            case Stage::enqueuing:
            {
               if( f.at->alive) break;
               bool told = true;
               for( auto& g : w.groups) if( ! g.told && g.lost == f.at->handle) told = false;
               if( told) violation( "a forward waits for a queue that is lost");
               break;
            }
            case Stage::taken: case Stage::called:
            {
               // the queue that it is to be forwarded to is lost, and the event about it is yet to come
               auto target = w.forwards[ f.forward].target;
               if( target >= 0 && ! w.groups[ w.queues[ target].group].told) break;
               [[fallthrough]];
            }
            default: violation( "a forward has stopped in the middle", name( f.stage));
         }
      }

      bool all_told = std::all_of( w.groups.begin(), w.groups.end(), []( auto& g){ return g.told;});
      if( w.shutdown)
      {
         for( int f = 0; f < int( w.forwards.size()); ++f)
            for( auto& flow : w.flows)
               if( flow.forward == f && ! flow.lost && ( flow.stage == Stage::dequeuing || flow.stage == Stage::looking))
                  violation( "a forward waits for something new after shutdown", name( flow.stage));
         if( all_told && std::none_of( w.flows.begin(), w.flows.end(), []( auto& f){ return f.live();}))
            violation( "the forward group does not end");
         return;
      }

      if( w.state)
         for( int f = 0; f < int( w.forwards.size()); ++f)
         {
            auto alias = "f" + std::to_string( f);
            int running = -1, configured = -1;
            for( auto& s : w.state->services) if( s.alias == alias) { running = s.instances.running; configured = s.instances.configured;}
            for( auto& s : w.state->queues) if( s.alias == alias) { running = s.instances.running; configured = s.instances.configured;}
            if( configured != w.forwards[ f].configured) violation( "the state tells another number of configured instances", std::to_string( configured));
            if( running > live( f, true) || running < live( f, false)) violation( "the state tells another number of running instances", std::to_string( running) + " - there are " + std::to_string( live( f, true)));
         }

      if( ! all_told) return;
      for( int f = 0; f < int( w.forwards.size()); ++f)
      {
         auto& forward = w.forwards[ f];
         if( forward.exempt) continue;
         auto n = live( f, false);
         if( n - forward.late > forward.configured)
            for( auto& flow : w.flows)
               if( flow.forward == f && flow.stage == Stage::dequeuing) violation( "more instances than configured go on waiting");
         auto looks = [&]( int queue){ return std::any_of( w.lookups.begin(), w.lookups.end(), [&]( auto& l){ return l.queue == queue;});};
         bool waits = looks( forward.source) || ( forward.target >= 0 && looks( forward.target));
         // an instance that is about to end resumes the others as well
         bool ends = std::any_of( w.flows.begin(), w.flows.end(), [f]( auto& flow){ return flow.forward == f && flow.live() && flow.stage != Stage::dequeuing;});
         if( n < forward.configured && ! waits && ! ends) violation( "a forward does not resume", "forward " + std::to_string( f));
      }
   }

   std::string fingerprint()
   {
      std::ostringstream out;
      out << w.scenario << '\n' << dump();
      for( auto& f : w.flows) if( f.live()) out << f.trid << f.correlation << ( f.at ? f.at->name : "") << ';';
      for( auto& l : w.lookups) out << l.queue << l.correlation << ';';
      for( auto& e : w.enqueued) out << e << ',';
      out << w.losses << w.refusals << w.scales << w.shutdowns << w.batches << w.ends;
      std::string state;
      if( sut_state)
      {
         auto& s = *sut_state;
         auto part = [&]( auto&& get){ if constexpr( requires{ get( s);}) state += vkc::text( get( s));};
         part( []( auto& s) -> decltype( ( s.runlevel)) { return s.runlevel;});
         part( []( auto& s) -> decltype( ( s.forward)) { return s.forward;});
         part( []( auto& s) -> decltype( ( s.pending)) { return s.pending;});
         if constexpr( requires{ s.multiplex.pending();}) state += std::to_string( s.multiplex.pending());
      }
      static const std::regex volatiles{ "metric: \\{[^}]*\\}[^}]*\\}[^}]*\\}|last: [^,}]*|count: [0-9]+"};
      out << std::regex_replace( state, volatiles, "");
      out << vk::kernel::state();
      return vk::canonical( out.str());
   }

   //! flows that are done are of no interest anymore
   void step()
   {
      if( ! w.started) violation( "the forward group does not connect to the queue manager");
      if( w.depth == 0 && ! w.observed && ! w.state && ! std::exchange( w.hold, true)) { configure(); return;}
      if( w.depth == 0) w.hold = false;

      if( ! w.observed)
      {
         w.observed = true;
         w.state.reset();
         qf::state::Request request{ w.admin->handle};
         request.correlation = cc::strong::correlation::id{ vkc::uuid( 0x60, 1)};
         vkc::to_self( request);
         return;
      }
      if( ! w.state) violation( "the state is not told");
      // (what it is told is known to it from now on)
      for( auto& f : w.forwards) if( std::exchange( f.going, false)) f.gone = true;
      quiescent();

      vk::visit_or_finish( fingerprint(), w.limit - w.depth);
      if( w.depth >= w.limit) vk::finish();
      perform();
      if( w.hold)
      {
         w.hold = false;
         ++w.held;
         perform();
         perform();
         --w.held;
         --w.depth;
      }
   }

   // ------------------------------------------------------------ scenarios

   struct Scenario { std::string name; std::function< void()> setup;};

   int queue( const std::string& name, int group, int messages, bool remote = false)
   {
      Queue q;
      q.name = name;
      q.id = cc::strong::queue::id{ 10 + int( w.queues.size())};
      q.group = group;
      q.remote = remote;
      static int next = 0;
      for( int i = 0; i < messages; ++i) q.messages.push_back( ++next);
      while( int( w.groups.size()) <= group) w.groups.emplace_back();
      w.queues.push_back( q);
      return w.queues.size() - 1;
   }
   void to_queue( int source, int target, int instances, casual::platform::time::unit delay = {})
   {
      Forward f; f.source = source; f.target = target; f.configured = f.allowed = instances; f.delay = delay;
      w.forwards.push_back( f);
   }
   void to_service( int source, const std::string& name, int reply, int instances, casual::platform::time::unit delay = {})
   {
      Forward f; f.service = true; f.source = source; f.name = name; f.target = reply; f.configured = f.allowed = instances; f.delay = delay;
      w.forwards.push_back( f);
   }

   std::vector< Scenario> scenarios()
   {
      std::vector< Scenario> result;
      bool deep = vk::thorough();
      auto add = [&]( std::string name, std::function< void()> f){ result.push_back( { name, f});};

      add( "queue to queue, the target gets lost", [=]
      {
         auto a = queue( "a", 0, 2), b = queue( "b", 1, 0, true);
         to_queue( a, b, 2);
         w.loseable = { 1}; w.max_losses = deep ? 2 : 1; w.max_refusals = 1; w.max_batches = 1; w.limit = deep ? 11 : 7;
      });
      add( "queue to queue, the source gets lost", [=]
      {
         auto a = queue( "a", 0, 2), b = queue( "b", 1, 0);
         to_queue( a, b, 2, std::chrono::seconds{ 7}); w.pid_events = true;
         w.loseable = { 0, 1}; w.max_losses = deep ? 2 : 1; w.max_refusals = deep; w.max_batches = 1; w.limit = deep ? 12 : 8;
      });
      add( "queue to queue in the same group", [=]
      {
         auto a = queue( "a", 0, 2), b = queue( "b", 0, 0);
         to_queue( a, b, 1);
         w.loseable = { 0}; w.max_losses = 1; w.max_scales = 1; w.max_refusals = 1; w.max_batches = 1; w.limit = deep ? 11 : 7;
      });
      add( "slow lookups", [=]
      {
         auto a = queue( "a", 0, 1), b = queue( "b", 1, 0);
         to_queue( a, b, 1); w.slow_lookup = true;
         w.loseable = { 0, 1}; w.max_losses = deep ? 2 : 1; w.max_scales = deep ? 2 : 1; w.max_batches = 1; w.limit = deep ? 11 : 7;
      });
      add( "service without reply, scaled", [=]
      {
         auto a = queue( "a", 0, 2);
         to_service( a, "s", -1, 1); w.two_answers = true;
         w.max_scales = deep ? 3 : 2; w.max_refusals = 1; w.max_batches = 1; w.limit = deep ? 11 : 7;
      });
      add( "service with reply", [=]
      {
         auto a = queue( "a", 0, 1), b = queue( "b", 1, 0, true);
         to_service( a, "s", b, 1, std::chrono::seconds{ 3});
         w.loseable = { 1}; w.max_losses = deep ? 2 : 1; w.max_refusals = deep ? 2 : 1; w.max_batches = 1; w.limit = deep ? 12 : 9;
      });
      add( "queue and service forward, scaled", [=]
      {
         auto a = queue( "a", 0, 1), b = queue( "b", 0, 1);
         to_queue( a, b, 1); to_service( b, "s", a, 1);
         w.max_scales = 1; w.max_refusals = deep ? 1 : 0; w.max_ends = 1; w.max_batches = deep; w.limit = deep ? 13 : 10;
      });
      return result;
   }

   void body( const std::string&)
   {
      auto list = scenarios();
      if( auto only = std::getenv( "VK_ONLY")) std::erase_if( list, [only]( auto& s){ return s.name.find( only) == std::string::npos;});
      std::vector< std::string> names;
      for( auto& s : list) names.push_back( s.name);
      auto chosen = vk::choose( names, "scenario");
      w.scenario = names[ chosen];
      list[ chosen].setup();

      vkc::boot();
      for( int g = 0; g < int( w.groups.size()); ++g) incarnate( g);
      boot_peers();

      vk::kernel::idle = []( auto&, auto&){ step();};

      const char* argv[] = { "/nowhere/casual-queue-forward-group", nullptr};
      auto result = sut_main( 1, argv);
      if( ! w.shutdown) violation( "the forward group ended", std::to_string( result));
      for( auto& f : w.flows)
         if( f.live() && ! f.lost && f.stage != Stage::dequeuing) violation( "the forward group ended with work in progress", name( f.stage));
      if( result != 0) violation( "the forward group ended with an error", std::to_string( result));
      vk::finish();
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "from the initial state of each scenario, every sequence of actions (a message is dequeued, each answer or refusal of queue groups, service manager, servers and transaction manager in each order, losses of queue groups, the event about it, their return, scaling, shutdown, two messages at once) up to the stated depth is applied to the real casual-queue-forward-group; states are merged when the program's state, the virtual kernel and the reference model agree",
      .assumptions = { "datagram delivery in order between processes, one message handled at a time (as in casual)", "the service manager answers for a server that is gone (S04)", "the transaction manager answers each request (T02)"},
      }, []( const std::string& property){ body( property);});
}
