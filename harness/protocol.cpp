//! messages between domains: fields, versions, fragmentation, and which version two domains speak
#include "gateway.h"
#include "enumerate.h"

#include "gateway/group/tcp.h"
#include "gateway/message/protocol/transform.h"

#include "common/communication/select.h"
#include "common/environment.h"

extern "C" int sut_main( int, const char**);

namespace
{
   using namespace vkg;
   namespace protocol = casual::gateway::message::protocol;
   namespace domain = casual::gateway::message::domain;
   namespace select = cc::communication::select;
   using Connection = casual::gateway::group::tcp::Connection;

   [[noreturn]] void wrong( const std::string& kind, const std::string& text = "") { vk::violation( "protocol: " + kind, text);}

   std::string thrown()
   {
      try { throw;}
      catch( const std::exception& e) { return e.what();}
      catch( ...) { return "unknown";}
   }

   // ------------------------------------------------------------------ two ends of a connection

   struct Link
   {
      Link( Version version)
         : a{ &vk::kernel::stream()}, from{ cc::communication::Socket{ cc::strong::socket::id{ a->fd}}, version}
      {
         // the reference to a stream is stable
         b = &vk::kernel::stream();
         to = std::make_unique< Connection>( cc::communication::Socket{ cc::strong::socket::id{ b->fd}}, version);
      }

      bool waits() const
      {
         for( auto descriptor : directive.write.descriptors()) if( descriptor == from.descriptor()) return true;
         return false;
      }

      //! what has been written is on its way
      void transfer()
      {
         b->in.insert( b->in.end(), a->out.begin(), a->out.end());
         a->out.clear();
      }

      vk::kernel::Stream* a{};
      vk::kernel::Stream* b{};
      Connection from;
      std::unique_ptr< Connection> to;
      select::Directive directive;
   };

   // ------------------------------------------------------------------ values

   template< typename T, typename = void> struct Values;

   std::string longtext() { std::string result; for( int i = 0; i < 300; ++i) result.push_back( char( i)); return result;}
   std::vector< std::byte> bytes( int size) { std::vector< std::byte> result; for( int i = 0; i < size; ++i) result.push_back( std::byte( i * 7 + 3)); return result;}

   // the first is the default
   std::vector< std::string> values( std::string*) { return { "", "a", longtext(), "svc/with.many:characters \xc3\xa5"};}
   std::vector< bool> values( bool*) { return { true, false};}
   template< std::integral T> std::vector< T> values( T*) { return { T{}, T( 1), T( -1), std::numeric_limits< T>::max(), std::numeric_limits< T>::min(), T( 0x01020304)};}
   std::vector< cc::Uuid> values( cc::Uuid*)
   {
      cc::Uuid::uuid_type raw{};
      for( int i = 0; i < 16; ++i) raw[ i] = 0xf0 + i;
      cc::Uuid::uuid_type one{};
      one[ 15] = 1;
      return { cc::Uuid{}, cc::Uuid{ raw}, cc::Uuid{ one}};
   }
   //! (a message without one gets the current)
   std::vector< cc::strong::execution::id> values( cc::strong::execution::id*)
   {
      auto all = values( static_cast< cc::Uuid*>( nullptr));
      return { cc::strong::execution::id{ all[ 2]}, cc::strong::execution::id{ all[ 1]}};
   }
   std::vector< cc::strong::execution::span::id> values( cc::strong::execution::span::id*)
   {
      std::array< std::byte, 8> raw{};
      for( int i = 0; i < 8; ++i) raw[ i] = std::byte( 0xf0 + i);
      return { cc::strong::execution::span::id{}, cc::strong::execution::span::id{ raw}};
   }
   template< typename T> requires requires{ T{ cc::Uuid{}}; typename T::value_type;}
   std::vector< T> values( T*) { std::vector< T> result; for( auto& v : values( static_cast< cc::Uuid*>( nullptr))) result.push_back( T{ v}); return result;}

   std::vector< casual::platform::time::unit> values( casual::platform::time::unit*)
   {
      using unit = casual::platform::time::unit;
      return { unit{}, unit{ 1}, std::chrono::milliseconds{ 1500}, std::chrono::hours{ 24 * 365}};
   }
   std::vector< casual::platform::time::point::type> values( casual::platform::time::point::type*)
   {
      using point = casual::platform::time::point::type;
      return { point{}, point{ casual::platform::time::unit{ 1}}, point{ std::chrono::milliseconds{ 1'700'000'000'123}}, point::max()};
   }
   std::vector< XID> values( XID*)
   {
      std::vector< XID> result{ cc::transaction::xid::null()};
      for( auto [ format, global, branch] : { std::tuple{ 42l, 16l, 16l}, { 0l, 1l, 0l}, { 0x7fffffffl, 64l, 64l}, { 1l, 0l, 64l}})
      {
         XID xid{};
         xid.formatID = format; xid.gtrid_length = global; xid.bqual_length = branch;
         for( int i = 0; i < global + branch; ++i) xid.data[ i] = char( i + 1);
         result.push_back( xid);
      }
      return result;
   }
   std::vector< std::vector< std::byte>> values( std::vector< std::byte>*) { return { bytes( 0), bytes( 1), bytes( 16), bytes( 2048)};}
   std::vector< cc::strong::resource::id> values( cc::strong::resource::id*)
   {
      using id = cc::strong::resource::id;
      return { id{ 0}, id{ 1}, id{ -1}, id{ 0x01020304}, id{ std::numeric_limits< int>::max()}};
   }

   // enumerations: all that the protocol knows
   template< typename T> requires std::is_enum_v< T> std::vector< T> values( T*)
   {
      if constexpr( std::same_as< T, cc::code::xatmi>) { std::vector< T> result; for( auto v : { 0, -1, 1, 2, 7, 10, 12, 13, 24}) result.push_back( T( v)); return result;}
      else if constexpr( std::same_as< T, cc::code::xa>) { std::vector< T> result; for( auto v : { 0, 3, 100, 107, 8, -3, -4, -7, -9}) result.push_back( T( v)); return result;}
      else if constexpr( std::same_as< T, cc::code::queue>) return { T::ok, T::no_message, T::no_queue, T::argument, T::system};
      else if constexpr( std::same_as< T, Version>) return { Version::v1_0, Version::v1_1, Version::v1_2, Version::v1_3, Version::v1_4, Version::invalid};
      else if constexpr( std::same_as< T, msg::service::transaction::State>) return { T::ok, T::rollback, T::timeout, T::error};
      else if constexpr( std::same_as< T, conv::duplex::Type>) return { T::send, T::receive, T::terminated};
      else if constexpr( std::same_as< T, cc::service::transaction::Type>) return { T( 0), T( 1), T( 2), T( 3), T( 4)};
      else // flags
      {
         std::vector< T> result;
         for( auto v : { 0l, 1l, 4l, 8l, 0x20l, 0x4000l, 0x40000000l}) result.push_back( T( std::underlying_type_t< T>( v)));
         return result;
      }
   }

   // composites
   using Queue = disc::reply::content::Queue;
   using Service = disc::reply::content::Service;
   std::vector< cc::domain::Identity> values( cc::domain::Identity*)
   {
      std::vector< cc::domain::Identity> result{ cc::domain::Identity{ cc::strong::domain::id{}, ""}};
      for( auto& id : values( static_cast< cc::strong::domain::id*>( nullptr)))
         for( auto& name : { std::string{ "A"}, longtext()}) { auto& identity = result.emplace_back(); identity.id = id; identity.name = name;}
      return result;
   }
   bool limited{};   //!< values that the version of the message has (discovery)
   std::vector< Queue> values( Queue*)
   {
      std::vector< Queue> result;
      for( auto& name : { std::string{ "q"}, longtext()})
         for( auto count : { 0l, 1l, std::numeric_limits< long>::max()})
         {
            Queue queue{ name};
            queue.retry.count = count;
            if( ! limited) queue.retry.delay = std::chrono::milliseconds{ 10};
            result.push_back( queue);
            if( limited) continue;
            for( int i = 1; i < 4; ++i) { auto& other = result.emplace_back( queue); other.enable = { bool( i & 1), bool( i & 2)}; other.enable.enqueue = i & 1; other.enable.dequeue = i & 2;}
         }
      return result;
   }
   std::vector< Service> values( Service*)
   {
      std::vector< Service> result;
      Service service;
      service.name = "a";
      result.push_back( service);
      service.category = "cat";
      service.timeout.duration = std::chrono::seconds{ 3};
      service.property.hops = 2;
      for( auto type : values( static_cast< cc::service::transaction::Type*>( nullptr))) { service.transaction = type; result.push_back( service);}
      service.name = longtext();
      service.property.hops = std::numeric_limits< long>::max();
      result.push_back( service);
      return result;
   }
   std::vector< qg::dequeue::Message> values( qg::dequeue::Message*)
   {
      std::vector< qg::dequeue::Message> result( 1);
      qg::dequeue::Message message;
      message.id = values( static_cast< cc::Uuid*>( nullptr))[ 1];
      message.attributes.properties = "properties";
      message.attributes.reply = "reply";
      message.attributes.available = casual::platform::time::point::type{ std::chrono::milliseconds{ 1'700'000'000'123}};
      message.payload.type = ".json/";
      message.payload.data = bytes( 100);
      message.redelivered = 3;
      message.timestamp = casual::platform::time::point::type{ std::chrono::milliseconds{ 1'600'000'000'456}};
      result.push_back( message);
      return result;
   }

   template< typename T> std::vector< std::optional< T>> values( std::optional< T>*)
   {
      std::vector< std::optional< T>> result{ std::nullopt};
      for( auto& v : values( static_cast< T*>( nullptr))) result.emplace_back( v);
      return result;
   }
   template< typename T> requires ( ! std::same_as< T, std::byte>) std::vector< std::vector< T>> values( std::vector< T>*)
   {
      std::vector< std::vector< T>> result( 1);
      auto all = values( static_cast< T*>( nullptr));
      for( auto& v : all) result.push_back( { v});
      result.push_back( { all.front(), all.back()});
      result.push_back( { all.back(), all.front(), all.back()});
      return result;
   }

   // ------------------------------------------------------------------ equality

   template< typename T> bool same( const T& l, const T& r) { return l == r;}
   bool same( const XID& l, const XID& r) { return l == r && l.formatID == r.formatID && ( l.formatID == -1 || l.gtrid_length == r.gtrid_length);}
   bool same( const qg::dequeue::Message& l, const qg::dequeue::Message& r)
   {
      return l.id == r.id && l.attributes.properties == r.attributes.properties && l.attributes.reply == r.attributes.reply
         && l.attributes.available == r.attributes.available && l.payload.type == r.payload.type && l.payload.data == r.payload.data
         && l.redelivered == r.redelivered && l.timestamp == r.timestamp;
   }
   bool same( const Service& l, const Service& r)
   {
      return l.name == r.name && l.category == r.category && l.transaction == r.transaction && l.timeout.duration == r.timeout.duration && l.property.hops == r.property.hops;
   }
   bool same( const Queue& l, const Queue& r)
   {
      return l.name == r.name && l.retry.count == r.retry.count && l.retry.delay == r.retry.delay && l.enable.enqueue == r.enable.enqueue && l.enable.dequeue == r.enable.dequeue;
   }
   bool same( const cc::domain::Identity& l, const cc::domain::Identity& r) { return l.id == r.id && l.name == r.name;}
   template< typename T> bool same( const std::vector< T>& l, const std::vector< T>& r)
   {
      if( l.size() != r.size()) return false;
      for( std::size_t i = 0; i < l.size(); ++i) if( ! same( T( l[ i]), T( r[ i]))) return false;
      return true;
   }
   template< typename T> bool same( const std::optional< T>& l, const std::optional< T>& r)
   {
      return l.has_value() == r.has_value() && ( ! l || same( *l, *r));
   }

   // ------------------------------------------------------------------ the fields that each message carries, according to the documentation of the protocol

#define FIELD( name) f( #name, [](auto& m) -> auto& { return m.name;})

   template< typename F> void fields( domain::connect::Request*, Version, F f) { FIELD( execution); FIELD( domain); FIELD( versions);}
   template< typename F> void fields( domain::connect::Reply*, Version, F f) { FIELD( execution); FIELD( domain); FIELD( version);}
   template< typename F> void fields( domain::disconnect::Request*, Version, F f) { FIELD( execution);}
   template< typename F> void fields( domain::disconnect::Reply*, Version, F f) { FIELD( execution);}
   template< typename F> void fields( disc::Request*, Version, F f) { FIELD( execution); FIELD( domain); FIELD( content.services); FIELD( content.queues);}
   template< typename F> void fields( disc::Reply*, Version, F f) { FIELD( execution); FIELD( domain); FIELD( content.services); FIELD( content.queues);}
   template< typename F> void fields( disc::topology::implicit::Update*, Version, F f) { FIELD( execution); FIELD( domains);}
   template< typename F> void fields( msg::service::call::callee::Request*, Version version, F f)
   {
      FIELD( execution); FIELD( service.name); FIELD( deadline.remaining); FIELD( parent.service); FIELD( trid.xid); FIELD( flags); FIELD( buffer.type); FIELD( buffer.data);
      if( version >= Version::v1_3) FIELD( parent.span);
   }
   template< typename F> void fields( msg::service::call::Reply*, Version, F f) { FIELD( execution); FIELD( code.result); FIELD( code.user); FIELD( transaction_state); FIELD( buffer.type); FIELD( buffer.data);}
   template< typename F> void fields( conv::connect::callee::Request*, Version version, F f)
   {
      FIELD( execution); FIELD( service.name); FIELD( deadline.remaining); FIELD( parent.service); FIELD( trid.xid); FIELD( duplex); FIELD( buffer.type); FIELD( buffer.data);
      if( version >= Version::v1_3) FIELD( parent.span);
   }
   template< typename F> void fields( conv::connect::Reply*, Version, F f) { FIELD( execution); FIELD( code.result);}
   template< typename F> void fields( conv::Disconnect*, Version, F f) { FIELD( execution);}
   template< typename F> void fields( conv::callee::Send*, Version, F f) { FIELD( execution); FIELD( duplex); FIELD( code.result); FIELD( code.user); FIELD( buffer.type); FIELD( buffer.data);}
   template< typename F> void resource_request( F f) { FIELD( execution); FIELD( trid.xid); FIELD( resource); FIELD( flags);}
   template< typename F> void resource_reply( F f) { FIELD( execution); FIELD( trid.xid); FIELD( resource); FIELD( state);}
   template< typename F> void fields( tr::prepare::Request*, Version, F f) { resource_request( f);}
   template< typename F> void fields( tr::commit::Request*, Version, F f) { resource_request( f);}
   template< typename F> void fields( tr::rollback::Request*, Version, F f) { resource_request( f);}
   template< typename F> void fields( tr::prepare::Reply*, Version, F f) { resource_reply( f);}
   template< typename F> void fields( tr::commit::Reply*, Version, F f) { resource_reply( f);}
   template< typename F> void fields( tr::rollback::Reply*, Version, F f) { resource_reply( f);}
   template< typename F> void fields( qg::enqueue::Request*, Version, F f)
   {
      FIELD( execution); FIELD( name); FIELD( trid.xid); FIELD( message.id); FIELD( message.attributes.properties); FIELD( message.attributes.reply); FIELD( message.attributes.available); FIELD( message.payload.type); FIELD( message.payload.data);
   }
   template< typename F> void fields( qg::enqueue::Reply*, Version version, F f) { FIELD( execution); FIELD( id); if( version >= Version::v1_3) FIELD( code);}
   template< typename F> void fields( qg::dequeue::Request*, Version, F f) { FIELD( execution); FIELD( name); FIELD( trid.xid); FIELD( selector.properties); FIELD( selector.id); FIELD( block);}
   template< typename F> void fields( qg::dequeue::Reply*, Version version, F f) { FIELD( execution); FIELD( message); if( version >= Version::v1_3) FIELD( code);}

   //! the message that is sent instead, in the older versions
   template< typename M> struct Older { using type = void; static constexpr Version last = Version::invalid;};
   template<> struct Older< msg::service::call::callee::Request> { using type = msg::service::call::v1_2::callee::Request;};
   template<> struct Older< msg::service::call::Reply> { using type = msg::service::call::v1_2::Reply;};
   template<> struct Older< conv::connect::callee::Request> { using type = conv::connect::v1_2::callee::Request;};
   template<> struct Older< qg::enqueue::Reply> { using type = qg::enqueue::v1_2::Reply;};
   template<> struct Older< qg::dequeue::Reply> { using type = qg::dequeue::v1_2::Reply;};
   template<> struct Older< disc::Reply> { using type = disc::v1_3::Reply;};

   //! the first version that has the message as it is now, according to the documentation
   template< typename M> constexpr Version first()
   {
      if constexpr( std::same_as< M, disc::Reply>) return Version::v1_4;
      else if constexpr( ! std::same_as< typename Older< M>::type, void>) return Version::v1_3;
      else if constexpr( std::same_as< M, domain::disconnect::Request> || std::same_as< M, domain::disconnect::Reply>) return Version::v1_1;
      else if constexpr( std::same_as< M, disc::topology::implicit::Update>) return Version::v1_2;
      else return Version::v1_0;
   }

   //! the numbers of the types, according to the documentation
   template< typename M> int number( bool older)
   {
      if constexpr( std::same_as< M, domain::connect::Request>) return 7200;
      else if constexpr( std::same_as< M, domain::connect::Reply>) return 7201;
      else if constexpr( std::same_as< M, domain::disconnect::Request>) return 7202;
      else if constexpr( std::same_as< M, domain::disconnect::Reply>) return 7203;
      else return int( M::type());
   }

   template< typename M> void send( Link& link, M message)
   {
      link.from.send( link.directive, std::move( message));
   }

   //! reads what has arrived
   template< typename M, typename W> std::optional< M> decode( Complete complete, const std::string& name)
   {
      if( complete.type() != W::type()) wrong( "the type of the message is not right", name + ": " + vkc::text( complete.type()));
      W message;
      cc::serialize::native::complete( complete, message);
      if( message.correlation != complete.correlation()) wrong( "the correlation is not the one of the message", name);
      if constexpr( std::same_as< M, W>) return message;
      else return protocol::transform::from( std::move( message));
   }

   template< typename M>
   void fields_of( vke::Enumerate& enumerate, const std::string& name)
   {
      constexpr std::array versions{ Version::v1_0, Version::v1_1, Version::v1_2, Version::v1_3, Version::v1_4};
      const auto version = versions[ enumerate( 5)];
      using older_type = typename Older< M>::type;
      constexpr bool has_older = ! std::same_as< older_type, void>;
      const bool older = version < first< M>();

      vk::evaluated();
      if( protocol::compatible< M>( version) == older) wrong( "a version has a message that it should not have, or the other way around", name + " " + std::to_string( int( version)));
      if constexpr( has_older)
      {
         if( protocol::compatible< older_type>( version) != older) wrong( "a version has a message that it should not have, or the other way around", "older " + name + " " + std::to_string( int( version)));
      }
      else if( older) return;

      limited = std::same_as< M, disc::Reply> && older;

      M message;
      const bool rich = enumerate( 2);
      // two fields with every value of each, the others with a small or a large value
      int count = 0;
      fields( static_cast< M*>( nullptr), version, [&]( auto, auto){ ++count;});
      int one = enumerate( count), two = one + enumerate( count - one);
      int index = 0;
      std::ostringstream what;
      fields( static_cast< M*>( nullptr), version, [&]( auto field, auto member)
      {
         auto& value = member( message);
         auto all = values( static_cast< std::remove_cvref_t< decltype( value)>*>( nullptr));
         int chosen = index == one || index == two ? enumerate( all.size()) : rich ? int( all.size()) - 1 : 0;
         value = all[ chosen];
         what << field << ": value " << chosen << ", ";
         ++index;
      });
      // a queue that is missing has no id, in the older version
      if constexpr( std::same_as< M, qg::enqueue::Reply>) { if( older) message.code = message.id ? cc::code::queue::ok : cc::code::queue::no_queue;}
      if constexpr( std::same_as< M, qg::dequeue::Reply>) { if( older) message.code = message.message ? cc::code::queue::ok : cc::code::queue::no_message;}
      // no deadline is nothing, in the older version
      if constexpr( requires{ message.deadline.remaining;}) { if( older && message.deadline.remaining && *message.deadline.remaining == casual::platform::time::unit{}) message.deadline.remaining.reset();}

      message.correlation = cc::strong::correlation::id{ values( static_cast< cc::Uuid*>( nullptr))[ 1]};
      const auto where = name + ", version " + std::to_string( int( version)) + ", " + what.str();
      std::optional< M> result;
      try
      {
         Link link{ version};
         if constexpr( has_older)
         {
            if( older) send( link, protocol::transform::to< older_type>( M( message)));
            else send( link, message);
         }
         else send( link, message);
         if( link.waits()) wrong( "the connection waits, though everything was written", where);
         link.transfer();
         auto complete = link.to->next();
         if( ! complete) wrong( "the message is not received", where);
         if constexpr( has_older) result = older ? decode< M, older_type>( std::move( complete), where) : decode< M, M>( std::move( complete), where);
         else result = decode< M, M>( std::move( complete), where);
         if( link.to->next()) wrong( "more than one message is received", where);
      }
      catch( ...) { wrong( "an error", where + ": " + thrown());}

      if( result->correlation != message.correlation) wrong( "the correlation is changed", where);
      fields( static_cast< M*>( nullptr), version, [&]( auto field, auto member)
      {
         auto& l = member( message);
         using type = std::remove_cvref_t< decltype( l)>;
         if( ! same( type( l), type( member( *result)))) wrong( std::string{ "a field is not the same: "} + name + "." + field, where);
      });
      if constexpr( std::same_as< M, qg::enqueue::Reply> || std::same_as< M, qg::dequeue::Reply>)
         if( result->code != message.code) wrong( "the code is not what the message means", where);
      vk::cover( name + " " + std::to_string( int( version)));
   }

   template< typename M> void all_fields( const std::string& name)
   {
      vke::Enumerate enumerate{ 1};
      enumerate.run( [&]{ fields_of< M>( enumerate, name);});
      vk::finish( "enumerated");
   }

   using Body = std::pair< const char*, void(*)( const std::string&)>;
   const std::vector< Body> messages{
      { "connect request", &all_fields< domain::connect::Request>}, { "connect reply", &all_fields< domain::connect::Reply>},
      { "disconnect request", &all_fields< domain::disconnect::Request>}, { "disconnect reply", &all_fields< domain::disconnect::Reply>},
      { "discovery request", &all_fields< disc::Request>}, { "discovery reply", &all_fields< disc::Reply>}, { "topology", &all_fields< disc::topology::implicit::Update>},
      { "call", &all_fields< msg::service::call::callee::Request>}, { "call reply", &all_fields< msg::service::call::Reply>},
      { "conversation connect", &all_fields< conv::connect::callee::Request>}, { "conversation connect reply", &all_fields< conv::connect::Reply>},
      { "conversation send", &all_fields< conv::callee::Send>}, { "conversation disconnect", &all_fields< conv::Disconnect>},
      { "enqueue", &all_fields< qg::enqueue::Request>}, { "enqueue reply", &all_fields< qg::enqueue::Reply>},
      { "dequeue", &all_fields< qg::dequeue::Request>}, { "dequeue reply", &all_fields< qg::dequeue::Reply>},
      { "prepare", &all_fields< tr::prepare::Request>}, { "prepare reply", &all_fields< tr::prepare::Reply>},
      { "commit", &all_fields< tr::commit::Request>}, { "commit reply", &all_fields< tr::commit::Reply>},
      { "rollback", &all_fields< tr::rollback::Request>}, { "rollback reply", &all_fields< tr::rollback::Reply>},
   };

   // ------------------------------------------------------------------ fragmentation

   //! the messages are small and of different sizes: 16 and up
   struct Sample
   {
      int size;         //!< -1: nothing but the execution
      Version version = Version::v1_4;
   };

   cc::strong::correlation::id correlation( int number)
   {
      cc::Uuid::uuid_type raw{};
      raw[ 0] = 1; raw[ 15] = number;
      return cc::strong::correlation::id{ cc::Uuid{ raw}};
   }

   void put( Link& link, int size, int number)
   {
      if( size < 0)
      {
         domain::disconnect::Request message;
         message.execution = cc::strong::execution::id{ correlation( number).underlying()};
         message.correlation = correlation( number);
         link.from.send( link.directive, std::move( message));
         return;
      }
      qg::dequeue::Request message;
      message.execution = cc::strong::execution::id{ correlation( number).underlying()};
      message.correlation = correlation( number);
      message.name = std::string( size, char( 'a' + number));
      link.from.send( link.directive, std::move( message));
   }

   //! checks that the next message is the right one
   void get( Complete& complete, int size, int number, const std::string& where)
   {
      vk::evaluated();
      if( complete.correlation() != correlation( number)) wrong( "the messages come in another order, or with another correlation", where);
      if( complete.execution().underlying() != correlation( number).underlying()) wrong( "the execution is not the one of the message", where);
      if( size < 0)
      {
         if( complete.type() != domain::disconnect::Request::type()) wrong( "another type", where);
         return;
      }
      if( complete.type() != qg::dequeue::Request::type()) wrong( "another type", where);
      qg::dequeue::Request message;
      cc::serialize::native::complete( complete, message);
      if( message.name != std::string( size, char( 'a' + number))) wrong( "the content is not the same", where);
   }

   struct Limits
   {
      std::vector< long> sizes;     //!< -1 -> would block
      std::size_t at{};
      long operator () ( long wanted)
      {
         if( at >= sizes.size()) return wanted;
         auto result = sizes[ at++];
         return result < 0 ? -1 : std::min( result, wanted);
      }
   };

   std::vector< std::vector< int>> samples() { return { { -1}, { 0}, { -1, -1}, { -1, 3, -1}, { 5, -1}, { 100}, { -1, 40, 0}};}

   long total( const std::vector< int>& sizes)
   {
      Link link{ Version::current};
      for( std::size_t i = 0; i < sizes.size(); ++i) put( link, sizes[ i], i);
      return link.a->out.size();
   }

   std::string text( const std::vector< int>& sizes) { std::string result; for( auto s : sizes) result += std::to_string( s) + " "; return result;}

   //! the stream is delivered in pieces: reads happen after each
   void pieces( int cuts)
   {
      vke::Enumerate enumerate{ 2};
      enumerate.run( [&]
      {
         const auto all = samples();
         const auto& sizes = all[ enumerate( all.size())];
         const auto length = total( sizes);
         std::vector< long> at;
         long previous = 0;
         for( int i = 0; i < cuts; ++i) at.push_back( previous += enumerate( length - previous + 1));
         at.push_back( length);
         std::string where = "messages " + text( sizes) + " delivered at ";
         for( auto a : at) where += std::to_string( a) + " ";
         try
         {
            Link link{ Version::current};
            for( std::size_t i = 0; i < sizes.size(); ++i) put( link, sizes[ i], i);
            auto data = link.a->out;
            link.a->out.clear();
            std::vector< long> ends;    // when a message is complete
            {
               long end = 0;
               auto rest = data;
               while( auto complete = take( rest)) ends.push_back( end += 32 + complete->payload.size());
            }
            if( ends.size() != sizes.size()) wrong( "the messages are not written as the protocol says", where);
            std::size_t received = 0;
            long done = 0;
            for( auto a : at)
            {
               link.b->in.insert( link.b->in.end(), data.begin() + done, data.begin() + a);
               done = a;
               // one event for each piece, at least: as many as there are messages
               for( int empty = 0; empty < 2;)
               {
                  auto complete = link.to->next();
                  if( ! complete) { ++empty; continue;}
                  if( received >= sizes.size() || ends[ received] > done) wrong( "a message out of partial input", where);
                  get( complete, sizes[ received], received, where);
                  ++received;
               }
               std::size_t expected = std::count_if( ends.begin(), ends.end(), [&]( auto end){ return end <= done;});
               if( received != expected) wrong( "a complete message is not received", where);
            }
         }
         catch( ...) { wrong( "an error", where + ": " + thrown());}
      });
      vk::finish( "enumerated");
   }

   //! the stream accepts, or delivers, only so much at a time
   void limits( bool write, int depth)
   {
      vke::Enumerate enumerate{ 2};
      enumerate.run( [&]
      {
         const auto all = samples();
         const auto& sizes = all[ enumerate( all.size())];
         const std::vector< long> alphabet{ -1, 1, 15, 16, 31, 32, 33, 47, 48, 49, 63, 64, 80, 1000};
         Limits limits;
         std::string where = std::string{ write ? "writes" : "reads"} + " of messages " + text( sizes) + " with limits ";
         for( int i = 0; i < depth; ++i)
         {
            limits.sizes.push_back( alphabet[ enumerate( alphabet.size())]);
            where += std::to_string( limits.sizes.back()) + " ";
         }
         try
         {
            Link link{ Version::current};
            if( write) link.a->write_limit = [&]( long wanted){ return limits( wanted);};
            else link.b->read_limit = [&]( long wanted){ return limits( wanted);};
            std::size_t received = 0;
            auto read = [&]
            {
               link.transfer();
               for( int empty = 0; empty < 40;)
               {
                  auto complete = link.to->next();
                  if( ! complete) { ++empty; continue;}
                  if( received >= sizes.size()) wrong( "more messages than were sent", where);
                  get( complete, sizes[ received], received, where);
                  ++received;
               }
            };
            for( std::size_t i = 0; i < sizes.size(); ++i)
            {
               put( link, sizes[ i], i);
               // the connection can be ready before the next is sent
               if( link.waits() && enumerate( 2)) link.from.unsent( link.directive);
               read();
            }
            for( int i = 0; link.waits(); ++i)
            {
               if( i > 100) wrong( "the connection never gets rid of the messages", where);
               link.from.unsent( link.directive);
            }
            read();
            if( received != sizes.size()) wrong( "a message is not sent, and nothing waits for the connection to be writable", where);
         }
         catch( ...) { wrong( "an error", where + ": " + thrown());}
      });
      vk::finish( "enumerated");
   }

   //! the connection is closed in the middle
   void truncated()
   {
      vke::Enumerate enumerate{ 2};
      enumerate.run( [&]
      {
         const auto all = samples();
         const auto& sizes = all[ enumerate( all.size())];
         const auto length = total( sizes);
         const auto at = enumerate( length + 1);
         const bool reset = enumerate( 2);
         std::string where = "messages " + text( sizes) + " end after " + std::to_string( at) + ( reset ? " (reset)" : "");
         Link link{ Version::current};
         for( std::size_t i = 0; i < sizes.size(); ++i) put( link, sizes[ i], i);
         auto data = link.a->out;
         link.b->in.insert( link.b->in.end(), data.begin(), data.begin() + at);
         std::size_t expected = 0;
         {
            auto rest = link.b->in;
            vk::bytes copy( rest.begin(), rest.end());
            while( take( copy)) ++expected;
         }
         std::size_t received = 0;
         bool lost = false;
         // all that arrived is read, then it is known that it is lost
         if( ! reset) link.b->peer_closed = true;
         try
         {
            for( int i = 0; i < 20; ++i)
            {
               if( reset && received == expected) link.b->reset = true;
               auto complete = link.to->next();
               if( ! complete) continue;
               if( received == expected) wrong( "a message out of partial input", where);
               get( complete, sizes[ received], received, where);
               ++received;
            }
         }
         catch( ...) { lost = true;}
         vk::evaluated();
         if( received != expected) wrong( "a complete message is not received", where);
         if( ! lost) wrong( "it is not detected that the connection is lost", where);
      });
      vk::finish( "enumerated");
   }

   // ------------------------------------------------------------------ which version

   //! the program that establishes the logical connection
   void negotiate( bool in)
   {
      const std::vector< Version> versions{ Version::v1_0, Version::v1_1, Version::v1_2, Version::v1_3, Version::v1_4};
      static bool answered{}, connected{};
      static Version said{}, expected{};
      vkc::boot();
      auto& group = vkc::peer( "group", 1, 1);
      auto& stream = vk::kernel::stream();
      static auto& remote = *new Remote;
      remote.name = "remote";
      remote.attach( stream);

      static domain::connect::Request request;
      static domain::connect::Reply reply;
      cc::domain::Identity identity;
      identity.id = cc::strong::domain::id{ correlation( 9).underlying()};
      identity.name = "other domain";

      group.on< domain::Connected>( [identity]( auto& message)
      {
         vk::evaluated();
         if( connected) wrong( "the group is told twice");
         connected = true;
         if( message.version != expected) wrong( "the group is told another version", std::to_string( int( message.version)) + " instead of " + std::to_string( int( expected)));
         if( ! same( message.domain, identity)) wrong( "the group is told another domain");
         if( message.connector != cc::process::id()) wrong( "the group is told another connector");
      });

      // fragmentation of what the remote sends
      static Limits limits;
      limits.sizes = std::vector< std::vector< long>>{ {}, { 1}, { 32, 5}, { 31}, { 33, 16}}[ vk::choose( 5, "limits of reads")];
      stream.read_limit = []( long wanted){ return limits( wanted);};

      if( in)
      {
         request.correlation = correlation( 1);
         request.domain = identity;
         // every subset, and versions that are not known (yet)
         const int subset = vk::choose( 32, "versions"), unknown = vk::choose( 3, "unknown versions");
         if( unknown == 1) request.versions.push_back( Version( 1005));
         for( int i = 4; i >= 0; --i) if( subset & ( 1 << i)) request.versions.push_back( versions[ i]);
         if( unknown == 2) std::reverse( request.versions.begin(), request.versions.end()), request.versions.push_back( Version( 2000));
         expected = Version::invalid;
         for( int i = 0; i < 5; ++i) if( subset & ( 1 << i)) expected = versions[ i];
         remote.on< domain::connect::Reply>( []( auto& message)
         {
            vk::evaluated();
            if( answered) wrong( "answered twice");
            answered = true;
            if( message.correlation != request.correlation) wrong( "answered with another correlation");
            said = message.version;
            if( said != expected) wrong( "not the highest version that both speak", std::to_string( int( said)) + " instead of " + std::to_string( int( expected)));
            if( message.domain.name != cc::domain::identity().name || message.domain.id != cc::domain::identity().id) wrong( "answered with another identity");
         });
         remote.push( request);
      }
      else
      {
         const int answer = vk::choose( 8, "version in the reply");
         expected = answer < 5 ? versions[ answer] : answer == 5 ? Version::invalid : Version( answer == 6 ? 1005 : 999);
         reply.domain = identity;
         reply.version = expected;
         if( answer >= 5) expected = Version::invalid;
         remote.on< domain::connect::Request>( []( auto& message)
         {
            vk::evaluated();
            if( answered) wrong( "asked twice");
            answered = true;
            if( message.versions != std::vector< Version>{ Version::v1_4, Version::v1_3, Version::v1_2, Version::v1_1, Version::v1_0}) wrong( "asked with other versions than those that are spoken");
            if( message.domain.name != cc::domain::identity().name || message.domain.id != cc::domain::identity().id) wrong( "asked with another identity");
            reply.correlation = message.correlation;
            remote.push( reply);
         });
      }

      vk::kernel::idle = []( const std::vector< int>&, const std::vector< int>&){ wrong( "the connector waits for more");};
      auto descriptor = std::to_string( stream.fd);
      auto ipc = vkc::text( group.handle.ipc);
      const char* argv[] = { "casual-gateway-group-tcp-logical-connect", "--descriptor", descriptor.c_str(), "--ipc", ipc.c_str(), "--bound", in ? "in" : "out"};
      const auto status = sut_main( 7, argv);
      vk::evaluated();
      if( ! answered) wrong( "nothing is said to the remote");
      if( connected != ( expected != Version::invalid)) wrong( connected ? "connected, though there is no version that both speak" : "not connected");
      if( ( status == 0) != connected) wrong( "the exit status does not tell if there is a connection", std::to_string( status));
      vk::finish( "done");
   }

   void body()
   {
      std::vector< std::string> names;
      for( auto& message : messages) names.push_back( message.first);
      for( auto name : { "pieces", "writes", "reads", "truncated", "negotiate in", "negotiate out"}) names.push_back( name);
      const auto chosen = vk::choose( names, "scenario");
      const auto count = int( messages.size());
      if( chosen >= count + 4) negotiate( chosen == count + 4);
      vkc::boot();
      if( chosen < count) messages[ chosen].second( names[ chosen]);
      const bool thorough = vk::tier() == "thorough";
      switch( chosen - count)
      {
         case 0: pieces( thorough ? 3 : 2); break;
         case 1: limits( true, thorough ? 5 : 3); break;
         case 2: limits( false, thorough ? 5 : 4); break;
         case 3: truncated(); break;
      }
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "every message of the protocol, in every version, with every pair of fields at every value of an alphabet of boundary values (the others small, or large); streams of 1-3 messages delivered with every choice of cuts, written and read with every sequence of limits of an alphabet around the boundaries of header and payload, and ended after every byte; every subset of versions offered, and every version answered, when domains connect",
      .assumptions = { "the other end writes what the protocol says"},
      }, []( const std::string& property)
      {
         if( property == "G03") body();
         vk::broken( "unknown property " + property);
      });
}
