//! C01 - C03: the message layer itself (inbound device, asynchronous sends, fan-out and task coordination)
//! of casual's common library, driven through every interleaving within bounds. See DESIGN.md
#include "vkc.h"
#include "enumerate.h"

#include "common/communication/ipc/send.h"
#include "common/message/coordinate.h"
#include "casual/task.h"
#include "casual/task/concurrent.h"

using namespace casual;
namespace cc = casual::common;
namespace ipc = casual::common::communication::ipc;
namespace device = casual::common::communication::device;

namespace
{
   using vk::violation;
   using Type = cc::message::Type;

   //! VK_ONLY selects scenarios, for development
   template< typename S>
   void only( std::vector< S>& scenarios)
   {
      if( auto name = std::getenv( "VK_ONLY"))
         std::erase_if( scenarios, [ name]( auto& s){ return std::string( s.name).find( name) == std::string::npos;});
   }

   platform::binary::type pattern( int number, std::size_t size)
   {
      platform::binary::type result( size);
      std::uint32_t x = 2463534242u + number * 7919u;
      for( auto& b : result)
      {
         x ^= x << 13; x ^= x >> 17; x ^= x << 5;
         b = std::byte( x);
      }
      return result;
   }

   const std::size_t P = ipc::message::transport::max_payload_size();
   int parts( std::size_t size) { return size ? int( ( size + P - 1) / P) : 1;}

   vkc::Complete complete( int number, Type type, const cc::strong::correlation::id& correlation, std::size_t size)
   {
      return vkc::Complete{ type, correlation, pattern( number, size)};
   }

   // =================================================================================== C01

   namespace inbound
   {
      enum class Mode { partial, restart, blocking};

      struct Item
      {
         int sender;
         Type type;
         int correlation;
         std::size_t size;
         Mode mode = Mode::partial;

         int sent = 0;                 //!< parts, in total
         bool complete{}, delivered{}, discarded{};
         int attempts = 0;
         std::shared_ptr< ipc::message::complete::Send> send;

         cc::strong::correlation::id id() const { return cc::strong::correlation::id{ vkc::uuid( 0x70, correlation)};}
      };

      constexpr auto A = Type::service_name_lookup_request, B = Type::service_call, C = Type::transaction_commit_request;

      enum class Op { any, type_a, type_b, types, correlation, type_correlation, types_correlation, cached, cached_types, discard, flush, push, blocking_any, blocking_correlation, blocking_type};

      struct Scenario
      {
         const char* name;
         std::vector< Item> items;
         std::vector< Op> ops;
         int depth, deep;
         std::vector< int> pushes;         //!< items of the receiver itself
      };

      std::vector< Scenario> scenarios()
      {
         return {
            { "three senders", { { 0, A, 1, 2 * P + 1}, { 1, A, 2, P + 1}, { 2, B, 3, 16}, { 2, A, 4, P}},
               { Op::any, Op::type_a, Op::type_b, Op::types, Op::correlation, Op::type_correlation}, 2, 5},
            { "boundary sizes", { { 0, A, 1, P - 1}, { 0, A, 2, 2 * P}, { 1, A, 3, 3 * P}, { 1, B, 4, P}},
               { Op::any, Op::type_a, Op::correlation}, 3, 5},
            { "discard", { { 0, A, 1, 2 * P}, { 0, A, 2, 16}, { 1, A, 3, P + 1}},
               { Op::any, Op::discard, Op::flush, Op::cached, Op::correlation}, 4, 6},
            { "one correlation", { { 0, A, 1, P + 1}, { 0, A, 1, 16}, { 0, B, 1, 2 * P}, { 1, C, 1, P + 1}},
               { Op::any, Op::type_a, Op::type_b, Op::correlation, Op::type_correlation, Op::types_correlation}, 3, 5},
            { "attempts from the start", { { 0, A, 1, 2 * P + 1, Mode::restart}, { 1, A, 2, P + 1, Mode::restart}, { 1, B, 3, 20, Mode::blocking}},
               { Op::any, Op::type_a, Op::flush, Op::cached, Op::correlation}, 2, 5},
            { "receiver waits", { { 0, A, 1, 2 * P + 1}, { 0, B, 2, 16}, { 1, B, 3, P + 1, Mode::restart}},
               { Op::blocking_any, Op::blocking_correlation, Op::blocking_type, Op::discard}, 2, 4},
            { "pushed by the receiver", { { 0, A, 1, P + 1}, { 0, B, 2, 16}, { 9, A, 3, 2 * P}, { 9, B, 4, 8}},
               { Op::push, Op::any, Op::type_a, Op::cached, Op::cached_types, Op::flush, Op::types}, 6, 7},
         };
      }

      struct World
      {
         Scenario scenario;
         ipc::inbound::Device* device{};
         std::vector< Item> items;
         int left = 0;
         bool flushed{};
      };
      World w;

      vk::Endpoint& endpoint() { return *vk::kernel::endpoint( vkc::path( w.device->connector().handle().ipc()));}

      //! items that a sender can go on with
      std::vector< int> sending()
      {
         std::vector< int> result;
         std::set< int> seen;
         for( int i = 0; i < int( w.items.size()); ++i)
         {
            auto& m = w.items[ i];
            if( m.complete || m.sender == 9) continue;
            if( seen.insert( m.sender).second) result.push_back( i);
         }
         return result;
      }

      void transmit( int i)
      {
         auto& m = w.items[ i];
         auto destination = w.device->connector().handle().ipc();
         w.flushed = false;
         int room = 1;
         endpoint().full = [ &room]{ return room-- <= 0;};
         auto count = parts( m.size);
         if( m.mode == Mode::partial)
         {
            if( ! m.send) m.send = std::make_shared< ipc::message::complete::Send>( complete( i, m.type, m.id(), m.size));
            ipc::partial::Destination to{ destination};
            m.complete = ipc::partial::send( to, *m.send);
            m.sent = m.complete ? count : m.sent + 1;
         }
         else if( m.mode == Mode::restart)
         {
            // one to all parts get through, twice at most it is given up
            room = m.attempts >= 2 ? count : 1 + vk::choose( count, "parts that fit");
            m.sent = std::min( room, count);
            ++m.attempts;
            m.complete = bool( device::non::blocking::send( destination, complete( i, m.type, m.id(), m.size)));
            if( m.complete != ( m.sent == count)) violation( "a non blocking send tells wrong", "message " + std::to_string( i));
         }
         else
         {
            device::blocking::send( destination, complete( i, m.type, m.id(), m.size));
            m.sent = count;
            m.complete = true;
         }
         if( auto e = vk::kernel::endpoint( vkc::path( destination))) e->full = nullptr;
         vk::note( "   sender " + std::to_string( m.sender) + ": message " + std::to_string( i) + ( m.complete ? " is sent" : ", a part is sent (" + std::to_string( m.sent) + ")"));
         vk::transition();
      }

      bool takeable( const Item& m) { return m.complete && ! m.delivered && ! m.discarded;}

      void deliver( vkc::Complete& message, const std::function< bool( const Item&)>& match)
      {
         vk::evaluated();
         for( int i = 0; i < int( w.items.size()); ++i)
         {
            auto& m = w.items[ i];
            if( m.type != message.type() || m.id() != message.correlation() || pattern( i, m.size) != message.payload) continue;
            if( m.delivered) { vk::note( "again: " + std::to_string( i)); continue;}
            if( m.discarded) violation( "a discarded message is delivered", "message " + std::to_string( i));
            if( ! m.complete) violation( "a message is delivered before it has been sent", "message " + std::to_string( i));
            if( ! match( m)) violation( "a message that was not asked for is delivered", "message " + std::to_string( i));
            for( int j = 0; j < i; ++j)
               if( w.items[ j].sender == m.sender && takeable( w.items[ j]) && match( w.items[ j]))
                  violation( "messages of a sender are taken out of order", std::to_string( i) + " before " + std::to_string( j));
            m.delivered = true;
            vk::note( "   -> message " + std::to_string( i));
            vk::cover( "delivered");
            return;
         }
         for( auto& m : w.items)
            if( m.type == message.type() && m.id() == message.correlation() && m.delivered && m.size == std::size_t( message.size()))
               violation( "a message is delivered twice, or with other content", vkc::text( message));
         violation( "a delivered message was never sent", vkc::text( message));
      }

      void absent( const std::function< bool( const Item&)>& match, const char* why)
      {
         vk::evaluated();
         for( int i = 0; i < int( w.items.size()); ++i)
            if( takeable( w.items[ i]) && match( w.items[ i])) violation( "a message that has arrived is not delivered", std::string( why) + ": message " + std::to_string( i));
      }

      void step();

      template< typename... Ts>
      void next( const std::function< bool( const Item&)>& match, Ts&&... arguments)
      {
         auto result = w.device->next( std::forward< Ts>( arguments)..., ipc::policy::non::Blocking{});
         if( result) deliver( result, match);
         else absent( match, "next");
      }

      template< typename... Ts>
      void wait( const std::function< bool( const Item&)>& match, Ts&&... arguments)
      {
         vk::kernel::idle = [ &]( auto&, auto&)
         {
            absent( match, "blocks");
            auto possible = sending();
            if( possible.empty()) vk::finish( "waits for a message that is never sent");
            std::vector< std::string> names;
            for( auto i : possible) names.push_back( "message " + std::to_string( i));
            transmit( possible[ vk::choose( names, "while it waits")]);
         };
         auto result = w.device->next( std::forward< Ts>( arguments)..., ipc::policy::Blocking{});
         vk::kernel::idle = []( auto&, auto&){ vk::broken( "waits");};
         if( ! result) violation( "a blocking receive gives nothing");
         deliver( result, match);
      }

      std::vector< std::string> operations( std::vector< std::function< void()>>& calls)
      {
         std::vector< std::string> names;
         auto add = [ &]( std::string name, std::function< void()> call){ names.push_back( std::move( name)); calls.push_back( std::move( call));};
         using I = const Item&;
         std::set< int> correlations;
         for( auto& m : w.items) if( ! m.delivered && ! m.discarded) correlations.insert( m.correlation);

         for( auto op : w.scenario.ops) switch( op)
         {
            case Op::any: add( "next", []{ next( []( I){ return true;});}); break;
            case Op::type_a: add( "next type a", []{ next( []( I m){ return m.type == A;}, A);}); break;
            case Op::type_b: add( "next type b", []{ next( []( I m){ return m.type == B;}, B);}); break;
            case Op::types: add( "next types b, c", []{ next( []( I m){ return m.type == B || m.type == C;}, std::vector< Type>{ B, C});}); break;
            case Op::correlation:
               for( auto c : correlations) add( "next correlation " + std::to_string( c), [c]{ next( [c]( I m){ return m.correlation == c;}, cc::strong::correlation::id{ vkc::uuid( 0x70, c)});});
               break;
            case Op::type_correlation:
               for( auto c : correlations) add( "next type a, correlation " + std::to_string( c), [c]{ next( [c]( I m){ return m.type == A && m.correlation == c;}, A, cc::strong::correlation::id{ vkc::uuid( 0x70, c)});});
               break;
            case Op::types_correlation:
               for( auto c : correlations) add( "next types b, c, correlation " + std::to_string( c), [c]{ next( [c]( I m){ return m.type != A && m.correlation == c;}, std::vector< Type>{ B, C}, cc::strong::correlation::id{ vkc::uuid( 0x70, c)});});
               break;
            case Op::cached: add( "cached", []
            {
               auto count = w.device->complete();
               auto result = w.device->cached();
               if( result) deliver( result, []( I){ return true;});
               else if( count > 0) violation( "the cache has a complete message that is not delivered");
               else if( w.flushed) absent( []( I){ return true;}, "cached after flush");
            }); break;
            case Op::cached_types: add( "cached type a", []
            {
               std::vector< Type> types{ A};
               auto has = w.device->cached( A);
               auto result = w.device->cached( types);
               if( bool( result) != has) violation( "the cache does not know what it has");
               if( result) deliver( result, []( I m){ return m.type == A;});
               else if( w.flushed) absent( []( I m){ return m.type == A;}, "cached after flush");
            }); break;
            case Op::discard:
               for( int i = 0; i < int( w.items.size()); ++i)
                  if( ! w.items[ i].delivered && ! w.items[ i].discarded)
                     add( "discard " + std::to_string( i), [i]
                     {
                        w.device->discard( w.items[ i].id());
                        w.items[ i].discarded = true;
                        vk::cover( w.items[ i].complete ? "discarded when complete" : w.items[ i].sent ? "discarded when partly sent" : "discarded in advance");
                     });
               break;
            case Op::flush: add( "flush", []
            {
               w.device->flush();
               w.flushed = true;
               if( ! endpoint().queue.empty()) violation( "a flush leaves messages on the device");
            }); break;
            case Op::push:
               for( int i = 0; i < int( w.items.size()); ++i)
                  if( w.items[ i].sender == 9 && ! w.items[ i].complete)
                  {
                     add( "push " + std::to_string( i), [i]
                     {
                        auto& m = w.items[ i];
                        w.device->push( complete( i, m.type, m.id(), m.size));
                        m.complete = true;
                     });
                     break;
                  }
               break;
            case Op::blocking_any: add( "wait", []{ wait( []( I){ return true;});}); break;
            case Op::blocking_type: add( "wait type b", []{ wait( []( I m){ return m.type == B;}, B);}); break;
            case Op::blocking_correlation:
               for( auto c : correlations) add( "wait correlation " + std::to_string( c), [c]{ wait( [c]( I m){ return m.correlation == c;}, cc::strong::correlation::id{ vkc::uuid( 0x70, c)});});
               break;
         }
         return names;
      }

      std::string fingerprint()
      {
         std::string result = std::string( w.scenario.name) + vkc::text( *w.device) + ( w.flushed ? "f" : "");
         for( auto& m : w.items) result += '|' + std::to_string( m.sent) + ( m.complete ? "c" : "") + ( m.delivered ? "d" : "") + ( m.discarded ? "x" : "") + std::to_string( m.attempts);
         for( auto& d : endpoint().queue)
         {
            ipc::message::Transport t;
            std::memcpy( t.data(), d.data(), d.size());
            result += '/' + vkc::text( t);
         }
         return result;
      }

      //! what has arrived can be taken, all of it
      void drain()
      {
         while( true)
         {
            auto result = w.device->next( ipc::policy::non::Blocking{});
            if( ! result) break;
            deliver( result, []( const Item&){ return true;});
         }
         absent( []( const Item&){ return true;}, "at the end");
         if( w.device->complete() != 0) violation( "complete messages are left in the cache");
      }

      void step()
      {
         vk::visit_or_finish( fingerprint(), w.left);
         std::vector< std::string> names;
         std::vector< std::function< void()>> calls;
         for( auto i : sending())
         {
            names.push_back( "part of " + std::to_string( i));
            calls.push_back( [i]{ transmit( i);});
         }
         const int transmits = int( names.size());
         if( w.left > 0)
         {
            auto more = operations( calls);
            names.insert( names.end(), more.begin(), more.end());
         }
         if( w.left == 0) names.push_back( "drain");
         auto chosen = vk::choose( names, "action");
         if( chosen == int( calls.size()))
         {
            drain();
            vk::finish( "drained");
         }
         if( chosen >= transmits) { --w.left; vk::transition();}
         calls[ chosen]();
      }

      void body()
      {
         vkc::boot();
         auto list = scenarios();
         only( list);
         std::vector< std::string> names;
         for( auto& s : list) names.push_back( s.name);
         w.scenario = list[ vk::choose( names, "scenario")];
         w.items = w.scenario.items;
         w.left = vk::thorough() ? w.scenario.deep : w.scenario.depth;
         w.device = new ipc::inbound::Device;
         vk::kernel::idle = []( auto&, auto&){ vk::broken( "waits");};
         while( true) step();
      }
   }

   // =================================================================================== C02

   namespace outbound
   {
      enum class Report { none, record, other, same};

      struct Message
      {
         int destination;
         std::size_t size;
         Report report;
         cc::strong::correlation::id id;
         bool delivered{}, reported{};
      };

      struct Destination
      {
         vkc::Peer* peer{};
         bool alive = true;
         int room = 0;
         std::vector< int> sent;            //!< messages, in the order they were sent
         std::size_t arrived = 0;           //!< how many of these have arrived
         int parts = 0;                     //!< of the next
         vkc::Assembler assembler;
         bool blocked{};                    //!< a send was refused
      };

      struct Scenario
      {
         const char* name;
         int destinations;
         std::vector< std::size_t> sizes;
         std::vector< Report> reports;
         int sends, depth;                  //!< quick
         int more_sends, deep;
         std::vector< int> rooms;           //!< at start
         bool deaths = true;
      };

      std::vector< Scenario> scenarios()
      {
         return {
            { "one destination", 1, { 8, P, 2 * P + 1}, { Report::record}, 3, 7, 4, 9, { 0, 2}},
            { "two destinations", 2, { 8, P + 1}, { Report::record}, 3, 6, 4, 8, { 0, 1}},
            { "three destinations", 3, { P + 1}, { Report::record}, 3, 6, 4, 8, { 1}},
            { "without callback", 2, { 8, P + 1}, { Report::none, Report::record}, 3, 5, 4, 7, { 1}},
            { "callbacks that send", 2, { 8, P + 1}, { Report::other, Report::same, Report::record}, 2, 6, 3, 8, { 0, 1}},
         };
      }

      struct World
      {
         Scenario scenario;
         std::vector< Destination> destinations;
         std::vector< Message> messages;
         int sends = 0, left = 0, extra = 0;
         cc::communication::select::Directive directive;
         ipc::send::Coordinator* coordinator{};
         std::string calling;
         bool nested{};
      };
      World& w = *new World;

      void send( int d, std::size_t size, Report report);

      void reported( int number, const cc::strong::ipc::id& ipc, const vkc::Complete& complete)
      {
         vk::evaluated();
         auto& m = w.messages[ number];
         auto& d = w.destinations[ m.destination];
         vk::note( "   message " + std::to_string( number) + " is reported");
         if( m.delivered) violation( "a delivered message is reported as lost", std::to_string( number));
         if( m.reported) violation( "a lost message is reported twice", std::to_string( number));
         if( d.alive) violation( "a message to a living destination is reported as lost", std::to_string( number));
         if( ipc != d.peer->handle.ipc) violation( "a lost message is reported for another destination", std::to_string( number));
         if( complete.correlation() != m.id || complete.payload != pattern( number, m.size)) violation( "a lost message is reported with other content", std::to_string( number));
         m.reported = true;
         vk::cover( "reported");
         if( m.report == Report::other) { vk::cover( "callback sends to another"); send( ( m.destination + 1) % int( w.destinations.size()), 8, Report::record);}
         else if( m.report == Report::same) { vk::cover( "callback sends to the lost"); send( m.destination, 8, Report::record);}
      }

      void send( int d, std::size_t size, Report report)
      {
         auto number = int( w.messages.size());
         cc::strong::correlation::id id{ vkc::uuid( 0x71, number)};
         w.messages.push_back( { d, size, report, id});
         w.destinations[ d].sent.push_back( number);
         vk::note( "   message " + std::to_string( number) + " of " + std::to_string( size) + " to " + std::to_string( d));
         auto ipc = w.destinations[ d].peer->handle.ipc;
         auto message = complete( number, Type::service_call, id, size);
         cc::strong::correlation::id result;
         if( report == Report::none)
            result = w.coordinator->send( ipc, std::move( message));
         else
            result = w.coordinator->send( ipc, std::move( message), [ number]( auto& ipc, auto& complete){ reported( number, ipc, complete);});
         if( result && result != id) violation( "send gives another correlation");
         if( ! result && w.destinations[ d].alive) violation( "send gives no correlation");
      }

      void arrived( int number, const vk::bytes& datagram)
      {
         auto& d = w.destinations[ number];
         --d.room;
         ++d.parts;
         auto complete = d.assembler( datagram);
         if( ! complete) return;
         vk::evaluated();
         d.parts = 0;
         if( d.arrived >= d.sent.size()) violation( "more messages arrive than were sent", vkc::text( *complete));
         auto& m = w.messages[ d.sent[ d.arrived]];
         if( complete->correlation() != m.id)
         {
            for( std::size_t i = 0; i < d.sent.size(); ++i) if( w.messages[ d.sent[ i]].id == complete->correlation())
               violation( i < d.arrived ? "a message arrives twice" : "messages arrive out of order", vkc::text( *complete));
            violation( "a message arrives at another destination", vkc::text( *complete));
         }
         if( complete->payload != pattern( d.sent[ d.arrived], m.size) || complete->type() != Type::service_call) violation( "a message arrives with other content", vkc::text( *complete));
         if( m.reported) violation( "a message that was reported as lost arrives", vkc::text( *complete));
         m.delivered = true;
         ++d.arrived;
         vk::cover( "delivered");
         vk::note( "   message " + std::to_string( d.sent[ d.arrived - 1]) + " has arrived");
      }

      std::optional< cc::strong::file::descriptor::id> descriptor( int d)
      {
         for( auto& r : w.coordinator->destinations())
            if( r.destination().ipc() == w.destinations[ d].peer->handle.ipc) return r.descriptor();
         return {};
      }

      void verify()
      {
         vk::evaluated();
         std::set< int> expected, actual;
         platform::size::type pending = 0;
         for( int i = 0; i < int( w.destinations.size()); ++i)
         {
            auto& d = w.destinations[ i];
            auto fd = descriptor( i);
            if( fd) expected.insert( fd->value());
            int count = 0;
            for( auto& r : w.coordinator->destinations()) if( r.destination().ipc() == d.peer->handle.ipc) count += int( r.size());
            if( d.alive)
            {
               int left = int( d.sent.size() - d.arrived);
               if( count != left) violation( "what is pending is not what has not arrived", "destination " + std::to_string( i) + ": pending " + std::to_string( count) + ", not arrived " + std::to_string( left));
               pending += left;
            }
            else
            {
               int left = 0;
               for( auto m : d.sent) if( ! w.messages[ m].delivered && ! w.messages[ m].reported && w.messages[ m].report != Report::none) ++left;
               if( count < left) violation( "a lost message is never reported", "destination " + std::to_string( i));
               pending += count;
            }
         }
         for( auto fd : w.directive.write.descriptors())
            if( ! actual.insert( fd.value()).second) violation( "a descriptor is waited for twice");
         if( expected != actual) violation( expected.size() > actual.size() ? "nothing wakes a pending destination" : "a destination that is done is still waited for");
         if( w.coordinator->pending() != pending || w.coordinator->empty() != ( pending == 0)) violation( "the pending count is wrong");
      }

      //! nothing is left that could have been sent or reported
      void progressed( int d)
      {
         auto& destination = w.destinations[ d];
         if( destination.alive)
         {
            if( destination.room > 0 && destination.arrived < destination.sent.size()) violation( "a destination with room does not get its messages", std::to_string( d));
         }
         else
            for( auto m : destination.sent)
               if( ! w.messages[ m].delivered && ! w.messages[ m].reported && w.messages[ m].report != Report::none) violation( "a lost message is not reported", std::to_string( m));
      }

      std::string fingerprint()
      {
         std::string result = std::string( w.scenario.name) + std::to_string( w.sends) + ',' + std::to_string( w.extra);
         for( auto& d : w.destinations)
         {
            result += "|" + std::to_string( d.alive) + std::to_string( d.room) + ',' + std::to_string( d.parts);
            for( auto m : d.sent) result += '/' + std::to_string( m) + ':' + std::to_string( w.messages[ m].size) + 'r' + std::to_string( int( w.messages[ m].report)) + ( w.messages[ m].delivered ? "d" : "") + ( w.messages[ m].reported ? "x" : "");
         }
         for( auto& r : w.coordinator->destinations())
         {
            result += ' ';
            for( int i = 0; i < int( w.destinations.size()); ++i) if( w.destinations[ i].peer->handle.ipc == r.destination().ipc()) result += std::to_string( i);
         }
         return result;
      }

      void step()
      {
         vk::visit_or_finish( fingerprint(), w.left);
         if( w.left-- == 0) vk::finish();
         std::vector< std::string> names;
         std::vector< std::function< void()>> calls;
         auto add = [ &]( std::string name, std::function< void()> call){ names.push_back( std::move( name)); calls.push_back( std::move( call));};
         if( w.sends > 0)
            for( int d = 0; d < int( w.destinations.size()); ++d)
               for( auto size : w.scenario.sizes)
                  for( auto report : w.scenario.reports)
                     add( "send " + std::to_string( size) + " to " + std::to_string( d) + ( report == Report::none ? " without callback" : ""), [=]
                     {
                        --w.sends;
                        auto before = w.destinations[ d].arrived < w.destinations[ d].sent.size();
                        send( d, size, report);
                        (void)before;
                        progressed( d);
                     });
         bool some = ! w.coordinator->empty();
         for( int d = 0; d < int( w.destinations.size()); ++d)
         {
            auto& destination = w.destinations[ d];
            auto fd = descriptor( d);
            bool waited = fd && cc::algorithm::find( w.directive.write.descriptors(), *fd);
            if( destination.alive && destination.room < 2)
            {
               add( "room at " + std::to_string( d), [=]
               {
                  ++w.destinations[ d].room;
                  if( ! waited) return;
                  if( ! ( *w.coordinator)( *fd, cc::communication::select::tag::write{})) violation( "a pending destination is not known");
                  progressed( d);
               });
               if( some) add( "room at " + std::to_string( d) + ", no event", [=]{ ++w.destinations[ d].room;});
            }
            if( waited && destination.room == 0) add( "event for " + std::to_string( d), [=]
            {
               if( ! ( *w.coordinator)( *fd, cc::communication::select::tag::write{})) violation( "a pending destination is not known");
               progressed( d);
            });
            if( destination.alive && w.scenario.deaths) add( std::to_string( d) + " dies", [=]{ auto& x = w.destinations[ d]; x.alive = false; x.peer->die(); vk::cover( "deaths"); if( x.parts) vk::cover( "deaths in the middle of a message");});
            if( ! destination.alive && fd) add( std::to_string( d) + " failed", [=]
            {
               w.coordinator->failed( w.destinations[ d].peer->handle.ipc);
               progressed( d);
            });
         }
         if( some) add( "send all", []
         {
            auto result = w.coordinator->send();
            if( result != w.coordinator->empty()) violation( "send tells wrong");
            for( int d = 0; d < int( w.destinations.size()); ++d) progressed( d);
         });
         if( calls.empty()) vk::finish();
         auto chosen = vk::choose( names, "action");
         vk::transition();
         calls[ chosen]();
         verify();
      }

      void body()
      {
         vkc::boot();
         auto list = scenarios();
         only( list);
         std::vector< std::string> names;
         for( auto& s : list) names.push_back( s.name);
         w.scenario = list[ vk::choose( names, "scenario")];
         w.sends = vk::thorough() ? w.scenario.more_sends : w.scenario.sends;
         w.left = vk::thorough() ? w.scenario.deep : w.scenario.depth;
         w.coordinator = new ipc::send::Coordinator{ w.directive};
         w.destinations.resize( w.scenario.destinations);
         auto room = w.scenario.rooms[ vk::choose( int( w.scenario.rooms.size()), "room at start")];
         for( int i = 0; i < w.scenario.destinations; ++i)
         {
            auto& d = w.destinations[ i];
            d.room = room;
            d.peer = &vkc::peer( "destination-" + std::to_string( i), 0x30, i);
            auto& endpoint = d.peer->endpoint();
            endpoint.receive = [i]( const vk::bytes& datagram){ arrived( i, datagram);};
            endpoint.full = [i]{ return w.destinations[ i].room <= 0;};
         }
         vk::kernel::idle = []( auto&, auto&){ violation( "an asynchronous send blocks");};
         while( true) step();
      }
   }

   // =================================================================================== C03

   namespace coordination
   {
      using vke::Enumerate;
      namespace coordinate = cc::message::coordinate;

      using Reply = cc::message::basic_message< Type::service_acknowledge>;
      using Other = cc::message::basic_message< Type::service_call>;

      std::string log;
      void note( const std::string& text) { log += text + "; ";}
      [[noreturn]] void wrong( const std::string& kind, const std::string& text = {}) { violation( kind, text + "\nafter: " + log);}

      cc::strong::correlation::id correlation( int number) { return cc::strong::correlation::id{ vkc::uuid( 0x72, number)};}
      cc::strong::process::id process( int number) { return cc::strong::process::id{ 20000 + number};}

      struct Part
      {
         int id, correlation;
         bool answered{}, failed{};
      };

      struct Fan
      {
         std::vector< Part> parts;
         std::vector< int> received;        //!< correlations, in order
         int done = 0;
         int callback = 0;                  //!< what it does: 1 starts another
         bool settled() const { return std::all_of( parts.begin(), parts.end(), []( auto& p){ return p.answered || p.failed;});}
      };

      // ---------------- every answer is awaited

      void fan( Enumerate& choose, int depth, int shape)
      {
         using Out = coordinate::fan::Out< Reply, cc::strong::process::id>;
         Out out;
         std::vector< std::unique_ptr< Fan>> fans;
         int next = 0;
         log.clear();

         std::function< void( std::vector< int>, int)> start = [ &]( std::vector< int> ids, int callback)
         {
            auto index = int( fans.size());
            fans.push_back( std::make_unique< Fan>());
            auto& fan = *fans.back();
            fan.callback = callback;
            std::vector< Out::Pending> pending;
            std::string text;
            for( auto id : ids)
            {
               fan.parts.push_back( { id, next});
               pending.emplace_back( correlation( next), process( id));
               text += " " + std::to_string( id);
               ++next;
            }
            note( "fan-out " + std::to_string( index) + " to" + text);
            out( std::move( pending), [ &, index]( std::vector< Reply> received, std::vector< Out::Pending> outcome)
            {
               auto& fan = *fans[ index];
               vk::evaluated();
               note( "fan-out " + std::to_string( index) + " is done");
               if( fan.done++) wrong( "a fan-out is completed twice", std::to_string( index));
               if( ! fan.settled()) wrong( "a fan-out is completed before all have answered", std::to_string( index));
               if( outcome.size() != fan.parts.size()) wrong( "a fan-out is completed without every outcome", std::to_string( index));
               for( std::size_t i = 0; i < outcome.size(); ++i)
               {
                  auto& part = fan.parts[ i];
                  auto found = std::find_if( outcome.begin(), outcome.end(), [ &]( auto& o){ return o.correlation == correlation( part.correlation);});
                  if( found == outcome.end() || found->id != process( part.id)) wrong( "a fan-out is completed with another participant", std::to_string( index));
                  using State = Out::Pending::State;
                  if( found->state != ( part.failed ? State::failed : State::received)) wrong( "a fan-out is completed with a wrong outcome", std::to_string( index));
               }
               if( received.size() != fan.received.size()) wrong( "a fan-out is completed without all answers", std::to_string( index));
               for( std::size_t i = 0; i < received.size(); ++i)
                  if( received[ i].correlation != correlation( fan.received[ i]) || received[ i].execution != cc::strong::execution::id{ vkc::uuid( 0x73, fan.received[ i])}) wrong( "a fan-out is completed with other answers", std::to_string( index));
               vk::cover( fan.parts.empty() ? "fan-out that is empty" : "fan-out completed");
               if( fan.callback == 1) { vk::cover( "fan-out that starts another"); start( { 1, 2}, 0);}
               if( fan.callback == 2) start( {}, 0);
            });
         };

         auto answer = [ &]( Fan& fan, Part& part)
         {
            Reply reply;
            reply.correlation = correlation( part.correlation);
            reply.execution = cc::strong::execution::id{ vkc::uuid( 0x73, part.correlation)};
            if( ! part.failed && ! part.answered) { part.answered = true; fan.received.push_back( part.correlation);}
            out( std::move( reply));
         };

         auto check = [ &]
         {
            vk::evaluated();
            bool all = true;
            for( std::size_t i = 0; i < fans.size(); ++i)
            {
               if( fans[ i]->settled() != ( fans[ i]->done == 1)) wrong( fans[ i]->done ? "a fan-out is completed too early" : "a fan-out is not completed", std::to_string( i));
               if( ! fans[ i]->done) all = false;
            }
            if( out.empty() != all) wrong( all ? "a completed fan-out is not removed" : "a fan-out is removed before it is completed");
         };

         static const std::vector< std::vector< std::vector< int>>> shapes{
            { { 1}, { 1, 2}}, { { 1, 2, 3}}, { { 1, 2}, { 2, 1}}, { { 1, 1}, { 2, 1}}, { {}, { 1}, { 2}}, { { 1, 2}, { 2, 3}, { 3, 1}}, { { 1, 1, 2}, { 1}}};
         std::vector< std::vector< int>> waiting = shapes[ shape];

         for( int n = 0; n < depth; ++n)
         {
            std::vector< std::function< void()>> calls;
            if( ! waiting.empty())
               for( int callback = 0; callback < 3; ++callback)
                  calls.push_back( [ &, callback]{ auto ids = waiting.front(); waiting.erase( waiting.begin()); start( ids, callback);});
            for( auto& f : fans)
               for( auto& p : f->parts)
                  if( ! p.answered) calls.push_back( [ &, fan = f.get(), part = &p]{ note( "answer " + std::to_string( part->correlation) + ( part->failed ? " (late)" : "")); answer( *fan, *part); part->answered = true;});
            std::set< int> ids;
            for( auto& f : fans) if( ! f->done) for( auto& p : f->parts) ids.insert( p.id);
            for( auto id : ids) calls.push_back( [ &, id]
            {
               note( std::to_string( id) + " fails");
               for( auto& f : fans) if( ! f->done) for( auto& p : f->parts) if( p.id == id) p.failed = true;
               out.failed( process( id));
            });
            if( calls.empty()) break;
            vk::transition();
            calls[ choose( int( calls.size()))]();
            check();
         }
      }

      // ---------------- the fan-out itself may decide that it is done

      void minimal( Enumerate& choose, int depth, int shape)
      {
         using Out = coordinate::minimal::fan::Out< Reply>;
         using Directive = coordinate::minimal::fan::out::Directive;
         using Pending = coordinate::minimal::fan::out::Pending;
         struct Entry { std::vector< Part> parts; int enough; int answers = 0; int done = 0; bool ended{};};
         Out out;
         std::vector< std::unique_ptr< Entry>> entries;
         int next = 0;
         log.clear();

         auto handle = []( int number){ return cc::process::Handle{ process( number), cc::strong::ipc::id{ vkc::uuid( 0x74, number)}};};

         auto start = [ &]( std::vector< int> ids, int enough)
         {
            auto index = int( entries.size());
            entries.push_back( std::make_unique< Entry>());
            auto& entry = *entries.back();
            entry.enough = enough;
            Out::pendings_type pending;
            for( auto id : ids) { entry.parts.push_back( { id, next}); pending.emplace_back( correlation( next), handle( id)); ++next;}
            note( "fan-out " + std::to_string( index) + " to " + std::to_string( ids.size()) + ( enough ? ", enough with " + std::to_string( enough) : ""));
            out.add( std::move( pending),
               [ &, index]( const Reply& reply)
               {
                  auto& e = *entries[ index];
                  vk::evaluated();
                  if( e.ended) wrong( "an answer is given to a fan-out that is done");
                  auto found = std::find_if( e.parts.begin(), e.parts.end(), [ &]( auto& p){ return correlation( p.correlation) == reply.correlation;});
                  if( found == e.parts.end()) wrong( "an answer is given to another fan-out");
                  ++e.answers;
                  if( e.enough && e.answers == e.enough) { e.ended = true; vk::cover( "fan-out that has enough"); return Directive::done;}
                  return Directive::pending;
               },
               [ &, index]( std::vector< Pending> left)
               {
                  auto& e = *entries[ index];
                  vk::evaluated();
                  if( e.ended) wrong( "a fan-out is completed twice", std::to_string( index));
                  if( e.done++) wrong( "a fan-out is completed twice", std::to_string( index));
                  e.ended = true;
                  std::set< int> expected;
                  for( auto& p : e.parts)
                  {
                     if( ! p.answered && ! p.failed) wrong( "a fan-out is completed before all have answered", std::to_string( index));
                     if( ! p.answered) expected.insert( p.correlation);
                  }
                  if( left.size() != expected.size()) wrong( "a fan-out is completed without every failure", std::to_string( index));
                  for( auto& p : left)
                  {
                     bool found = false;
                     for( auto c : expected) found = found || p.correlation == correlation( c);
                     if( ! found || p.state != Pending::State::failed) wrong( "a fan-out is completed with a wrong failure", std::to_string( index));
                  }
                  vk::cover( "fan-out completed");
               });
         };

         auto check = [ &]
         {
            vk::evaluated();
            std::size_t left = 0;
            for( std::size_t i = 0; i < entries.size(); ++i)
            {
               auto& e = *entries[ i];
               bool settled = std::all_of( e.parts.begin(), e.parts.end(), []( auto& p){ return p.answered || p.failed;}) || ( e.enough && e.answers >= e.enough);
               if( settled != e.ended) wrong( "a fan-out is not completed", std::to_string( i));
               if( ! e.ended) ++left;
            }
            if( std::size_t( out.size()) != left) wrong( "a completed fan-out is not removed, or another is");
         };

         static const std::vector< std::vector< std::pair< std::vector< int>, int>>> shapes{
            { { { 1, 2, 3}, 0}, { { 1}, 0}}, { { { 1, 2, 3}, 1}, { { 2, 1}, 0}}, { { { 1, 2}, 2}, { {}, 0}, { { 2, 3}, 1}}, { { { 1, 1}, 0}, { { 2, 1, 3}, 2}}};
         auto waiting = shapes[ shape];
         for( int n = 0; n < depth; ++n)
         {
            std::vector< std::function< void()>> calls;
            if( ! waiting.empty()) calls.push_back( [ &]{ auto w = waiting.front(); waiting.erase( waiting.begin()); start( w.first, w.second);});
            for( auto& e : entries)
               for( auto& p : e->parts)
                  if( ! p.answered && ! p.failed) calls.push_back( [ &, entry = e.get(), part = &p]
                  {
                     note( "answer " + std::to_string( part->correlation) + ( entry->ended ? " (late)" : ""));
                     part->answered = true;
                     Reply reply;
                     reply.correlation = correlation( part->correlation);
                     out( std::move( reply));
                  });
            std::set< int> ids;
            for( auto& e : entries) if( ! e->ended) for( auto& p : e->parts) ids.insert( p.id);
            for( auto id : ids) calls.push_back( [ &, id]
            {
               note( std::to_string( id) + " fails");
               for( auto& e : entries) if( ! e->ended) for( auto& p : e->parts) if( p.id == id && ! p.answered) p.failed = true;
               out.failed( handle( id));
            });
            if( calls.empty()) break;
            vk::transition();
            calls[ choose( int( calls.size()))]();
            check();
         }
      }

      // ---------------- groups of tasks, one after the other

      void tasks( Enumerate& choose, int depth, int shape)
      {
         struct Task { int group; bool aborts; bool started{}, done{}; casual::task::unit::id id; int seen = 0;};
         std::vector< std::unique_ptr< Task>> all;
         casual::task::Coordinator coordinator;
         int groups = 0;
         log.clear();
         std::set< int> finish;              // tasks that the current message finishes
         int message_type = 0;

         auto group_done = [ &]( int group)
         {
            return std::all_of( all.begin(), all.end(), [ &]( auto& t){ return t->group != group || t->done || ( t->aborts && t->started);});
         };

         std::set< int> offered;

         auto group = [ &]( std::vector< bool> units)
         {
            auto number = groups++;
            std::vector< casual::task::Unit> result;
            for( auto aborts : units)
            {
               auto index = int( all.size());
               all.push_back( std::make_unique< Task>( Task{ number, aborts}));
               auto handler = [ &, index]( int type)
               {
                  auto& t = *all[ index];
                  vk::evaluated();
                  if( ! t.started) wrong( "a task gets a message before it is started", std::to_string( index));
                  if( t.done) wrong( "a task that is done gets a message", std::to_string( index));
                  if( t.aborts) wrong( "a task that was aborted gets a message", std::to_string( index));
                  if( type != message_type) wrong( "a task gets a message of another type");
                  if( ! offered.insert( index).second) wrong( "a task gets a message twice", std::to_string( index));
                  if( ! finish.contains( index)) return casual::task::unit::Dispatch::pending;
                  t.done = true;
                  return casual::task::unit::Dispatch::done;
               };
               result.push_back( casual::task::create::unit(
                  casual::task::create::action( "task " + std::to_string( index), [ &, index]( casual::task::unit::id id)
                  {
                     auto& t = *all[ index];
                     vk::evaluated();
                     note( "task " + std::to_string( index) + ( t.aborts ? " aborts" : " starts"));
                     if( t.started) wrong( "a task is started twice", std::to_string( index));
                     for( int g = 0; g < t.group; ++g) if( ! group_done( g)) wrong( "a group is started before the previous is finished", std::to_string( index));
                     t.started = true;
                     t.id = id;
                     return t.aborts ? casual::task::unit::action::Outcome::abort : casual::task::unit::action::Outcome::success;
                  }),
                  [ &, index, handler]( casual::task::unit::id id, const Reply&)
                  {
                     if( id != all[ index]->id) wrong( "a task gets the identity of another");
                     return handler( 0);
                  },
                  [ &, index, handler]( casual::task::unit::id id, const Other&)
                  {
                     if( id != all[ index]->id) wrong( "a task gets the identity of another");
                     return handler( 1);
                  }));
            }
            return casual::task::Group{ std::move( result)};
         };

         auto check = [ &]
         {
            vk::evaluated();
            // the first group that is not done is started, later are not
            bool active = false;
            std::vector< int> left;
            for( int g = 0; g < groups; ++g)
            {
               bool started = true, any = false;
               for( auto& t : all) if( t->group == g) { started = started && t->started; any = any || t->started;}
               if( active) { if( any) wrong( "a group is started before the previous is finished", std::to_string( g)); left.push_back( g); continue;}
               if( ! started) wrong( "a group is not started when the previous is finished", std::to_string( g));
               if( ! group_done( g)) { active = true; left.push_back( g);}
            }
            std::size_t units = 0;
            for( auto& t : all) if( std::find( left.begin(), left.end(), t->group) != left.end() && ! t->done && ! ( t->aborts && t->started)) ++units;
            if( coordinator.ids().size() != units) wrong( "the tasks that are left are wrong");
         };

         static const std::vector< std::vector< std::vector< bool>>> shapes{
            { { false}, { false, false}, { false}}, { { true}, { false}, { true, false}}, { { false}, { true}, { false}}, { { false, true}, { true, true}, { false, false}}, { { true}, { true}, { false}, { false}}};
         auto waiting = shapes[ shape];
         for( int n = 0; n < depth; ++n)
         {
            std::vector< std::function< void()>> calls;
            if( ! waiting.empty())
            {
               calls.push_back( [ &]{ auto units = waiting.front(); waiting.erase( waiting.begin()); note( "then group " + std::to_string( groups)); coordinator.then( group( units));});
               if( waiting.size() > 1) calls.push_back( [ &]
               {
                  std::vector< casual::task::Group> more;
                  note( "then groups from " + std::to_string( groups));
                  // groups are given all at once
                  for( auto& units : waiting) more.push_back( group( units));
                  waiting.clear();
                  coordinator.then( std::move( more));
               });
            }
            std::vector< int> running;
            for( int i = 0; i < int( all.size()); ++i) if( ! all[ i]->done && ! all[ i]->aborts) running.push_back( i);
            if( ! running.empty())
               for( int type = 0; type < 2; ++type)
                  for( unsigned mask = 0; mask < ( 1u << running.size()); ++mask)
                     calls.push_back( [ &, type, mask]
                     {
                        finish.clear(); offered.clear();
                        message_type = type;
                        std::string text;
                        for( std::size_t i = 0; i < running.size(); ++i) if( mask & ( 1u << i)) { finish.insert( running[ i]); text += " " + std::to_string( running[ i]);}
                        note( "message that finishes" + text);
                        if( type == 0) { Reply m; coordinator( m);}
                        else { Other m; coordinator( m);}
                        vk::cover( "messages to tasks");
                     });
            if( calls.empty()) break;
            vk::transition();
            calls[ choose( int( calls.size()))]();
            check();
         }
      }

      // ---------------- tasks side by side, by correlation

      void concurrent( Enumerate& choose, int depth, int)
      {
         namespace concurrent = casual::task::concurrent;
         struct Task { int key, correlation; bool fails; bool gone{}; int outcomes = 0;};
         std::vector< std::unique_ptr< Task>> all;
         concurrent::Coordinator< int> coordinator;
         log.clear();
         bool finish = false;
         int target = -1, failing = -1;

         auto add = [ &]( int key, bool fails)
         {
            auto index = int( all.size());
            all.push_back( std::make_unique< Task>( Task{ key, index, fails}));
            note( "task " + std::to_string( index) + " for " + std::to_string( key));
            auto handler = [ &, index]( Reply& reply, const int& key)
            {
               auto& t = *all[ index];
               vk::evaluated();
               if( index != target || key != t.key || reply.correlation != correlation( index)) wrong( "a task gets the message of another", std::to_string( index));
               if( t.gone) wrong( "a task that is gone gets a message", std::to_string( index));
               if( finish) ++t.outcomes;
               return finish ? concurrent::unit::Dispatch::done : concurrent::unit::Dispatch::pending;
            };
            auto once = [ &, index]( Other& m, const int& key)
            {
               auto& t = *all[ index];
               vk::evaluated();
               if( index != target || t.gone) wrong( "a task gets the message of another", std::to_string( index));
               ++t.outcomes;
            };
            auto failed = [ &, index]( const concurrent::message::task::Failed& m, const int& key)
            {
               auto& t = *all[ index];
               vk::evaluated();
               if( t.gone || t.key != failing || key != failing || m.correlation != correlation( index)) wrong( "a task is told of another's failure", std::to_string( index));
               if( t.outcomes++) wrong( "a task has two outcomes", std::to_string( index));
               return concurrent::unit::Dispatch::done;
            };
            if( fails) coordinator.add( concurrent::Unit< int>{ key, correlation( index), std::move( handler), std::move( once), std::move( failed)});
            else coordinator.add( concurrent::Unit< int>{ key, correlation( index), std::move( handler), std::move( once)});
         };

         auto check = [ &]
         {
            vk::evaluated();
            std::size_t left = 0;
            for( std::size_t i = 0; i < all.size(); ++i)
            {
               auto& t = *all[ i];
               if( coordinator.contains( correlation( int( i))) == t.gone) wrong( t.gone ? "a task that is done is not removed" : "a task is removed before it is done", std::to_string( i));
               if( ! t.gone) ++left;
            }
            if( coordinator.tasks().size() != left || coordinator.empty() != ( left == 0)) wrong( "the tasks that are left are wrong");
            for( int key = 1; key <= 2; ++key)
               if( coordinator.contains( key) != std::any_of( all.begin(), all.end(), [ &]( auto& t){ return ! t->gone && t->key == key;})) wrong( "tasks are not found by key");
         };

         int adds = 4;
         for( int n = 0; n < depth; ++n)
         {
            std::vector< std::function< void()>> calls;
            if( adds) for( int key = 1; key <= 2; ++key) for( int fails = 0; fails < 2; ++fails) calls.push_back( [ &, key, fails]{ --adds; add( key, fails);});
            for( int i = 0; i < int( all.size()); ++i)
            {
               if( all[ i]->gone) continue;
               for( int type = 0; type < 3; ++type)
                  calls.push_back( [ &, i, type]
                  {
                     target = i;
                     finish = type == 1;
                     note( "message to " + std::to_string( i));
                     if( type == 2) { Other m; m.correlation = correlation( i); coordinator( m);}
                     else { Reply m; m.correlation = correlation( i); coordinator( m);}
                     auto expected = type == 0 ? 0 : 1;
                     if( all[ i]->outcomes != expected) wrong( "a task does not get its message", std::to_string( i));
                     all[ i]->gone = expected;
                  });
            }
            for( int key = 1; key <= 2; ++key)
               if( std::any_of( all.begin(), all.end(), [ &]( auto& t){ return ! t->gone && t->key == key;}))
                  calls.push_back( [ &, key]
                  {
                     failing = key;
                     note( std::to_string( key) + " fails");
                     coordinator.failed( key);
                     for( auto& t : all) if( ! t->gone && t->key == key)
                     {
                        if( t->fails && t->outcomes != 1) wrong( "a task is not told of its failure");
                        t->gone = true;
                     }
                     vk::cover( "failures of tasks");
                  });
            if( calls.empty()) break;
            vk::transition();
            calls[ choose( int( calls.size()))]();
            check();
         }
      }

      void body()
      {
         struct Scenario { std::string name; std::function< void( Enumerate&, int, int)> run; int shape, depth, deep;};
         std::vector< Scenario> scenarios;
         for( int i = 0; i < 7; ++i) scenarios.push_back( { "fan-out, shape " + std::to_string( i), fan, i, 7, 8});
         for( int i = 0; i < 4; ++i) scenarios.push_back( { "fan-out that may have enough, shape " + std::to_string( i), minimal, i, 9, 10});
         for( int i = 0; i < 5; ++i) scenarios.push_back( { "groups of tasks, shape " + std::to_string( i), tasks, i, 6, 7});
         scenarios.push_back( { "tasks side by side", concurrent, 0, 6, 7});
         only( scenarios);
         std::vector< std::string> names;
         for( auto& s : scenarios) names.push_back( s.name);
         vkc::boot();
         auto& scenario = scenarios[ vk::choose( names, "scenario")];
         Enumerate enumerate{ 3};
         enumerate.run( [ &]{ scenario.run( enumerate, vk::thorough() ? scenario.deep : scenario.depth, scenario.shape);});
         vk::finish( "enumerated");
      }
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "C01: every interleaving of the parts of messages from up to three senders with every sequence of receive, discard, flush and push operations up to the stated depth, on the real inbound device. C02: every sequence of sends, room that appears, write events, batch sends, deaths and failures up to the stated depth, on the real send coordinator. C03: every sequence of starts, answers and failures up to the stated depth, on the real fan-out and task coordinators",
      .assumptions = { "datagrams arrive in the order they are sent, whole, once (AF_UNIX)", "correlations are unique per message and type that is in transit" },
      }, []( const std::string& property)
      {
         if( property == "C01") inbound::body();
         if( property == "C02") outbound::body();
         if( property == "C03") coordination::body();
         vk::broken( "unknown property " + property);
      });
}
