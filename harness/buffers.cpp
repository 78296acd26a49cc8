//! B01, B02: the typed buffers, through their C interface, against reference models.
//! Every sequence of operations up to a depth, of several universes of fields and values.

#include "enumerate.h"
#include "vkc.h"

#include "casual/buffer/field.h"
#include "casual/buffer/internal/field.h"
#include "casual/buffer/octet.h"
#include <stdbool.h>
#include "casual/buffer/order.h"
#include "casual/buffer/string.h"
#include "casual/xatmi.h"

#include "common/buffer/pool.h"
#include "common/message/service.h"
#include "common/serialize/native/binary.h"
#include "common/serialize/native/network.h"

#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <new>
#include <optional>
#include <sstream>

#include <sys/syscall.h>
#include <unistd.h>

// memory that is allocated is followed by bytes that are of no use to anyone who reads too far
void* operator new( std::size_t size)
{
   auto result = static_cast< unsigned char*>( std::malloc( size + 64));
   if( ! result) throw std::bad_alloc{};
   std::memset( result + size, 0xff, 64);
   return result;
}
void operator delete( void* p) noexcept { std::free( p);}
void operator delete( void* p, std::size_t) noexcept { std::free( p);}

namespace
{
   namespace cc = casual::common;
   namespace cb = casual::common::buffer;
   using vke::Enumerate;

   std::string log;
   void note( const std::string& text) { log += text + "; ";}
   [[noreturn]] void wrong( const std::string& kind, const std::string& text = {}) { vk::violation( kind, text + "\nafter: " + log);}

   std::string shown( const std::string& bytes)
   {
      std::string result;
      for( unsigned char c : bytes)
         if( c >= 32 && c < 127) result += c;
         else { char hex[ 8]; std::snprintf( hex, sizeof( hex), "\\x%02x", c); result += hex;}
      return "'" + ( result.size() > 60 ? result.substr( 0, 57) + "..." : result) + "'";
   }

   //! what a service gets when it is called with the buffer, with each encoding. Frees the buffer
   template< typename Writer, typename Reader>
   cb::Payload transport( cb::payload::Send send)
   {
      cc::message::service::call::caller::Request request{ std::move( send)};
      auto writer = Writer{}();
      writer << request;
      auto bytes = writer.consume();
      cc::message::service::call::callee::Request received;
      auto reader = Reader{}( bytes);
      reader >> received;
      return std::move( received.buffer);
   }

   char* transfer( char* handle, int way)
   {
      namespace native = cc::serialize::native::binary;
      namespace network = cc::serialize::native::binary::network;
      auto send = cb::pool::holder().get( cb::handle::type{ handle});
      auto payload = way == 0 ? transport< native::create::Writer, native::create::Reader>( std::move( send))
         : transport< network::create::Writer, network::create::Reader>( std::move( send));
      auto raw = way == 0 ? std::get< 0>( cb::pool::holder().insert( std::move( payload))).raw() : cb::pool::holder().adopt( std::move( payload)).raw();
      if( ! raw) wrong( "a buffer that is transferred is not there at the receiver");
      return raw;
   }

   std::vector< char*> owned;
   void clear()
   {
      for( auto h : owned) if( h) ::tpfree( h);
      owned.clear();
      cb::pool::holder().clear();
      log.clear();
   }

   // =========================================================================== B01

   namespace field
   {
      template< typename T> std::string host( T value) { return { reinterpret_cast< const char*>( &value), sizeof( T)};}

      using Model = std::map< long, std::vector< std::string>>;

      int type( long id) { return int( id / CASUAL_FIELD_TYPE_BASE);}
      constexpr long id( int type, long number) { return long( type) * CASUAL_FIELD_TYPE_BASE + number;}

      constexpr long short1 = id( CASUAL_FIELD_SHORT, 1), long1 = id( CASUAL_FIELD_LONG, 1), char1 = id( CASUAL_FIELD_CHAR, 1);
      constexpr long float1 = id( CASUAL_FIELD_FLOAT, 1), double1 = id( CASUAL_FIELD_DOUBLE, 1);
      constexpr long string1 = id( CASUAL_FIELD_STRING, 1), string2 = id( CASUAL_FIELD_STRING, 2), binary1 = id( CASUAL_FIELD_BINARY, 1);

      std::string name( long id)
      {
         static const char* names[] = { "none", "short", "long", "char", "float", "double", "string", "binary"};
         auto t = type( id);
         return ( t >= 0 && t < 8 ? names[ t] : "unknown") + std::to_string( id % CASUAL_FIELD_TYPE_BASE);
      }

      bool plain( int type) { return type >= CASUAL_FIELD_SHORT && type <= CASUAL_FIELD_DOUBLE;}

      std::size_t plain_size( int type)
      {
         switch( type)
         {
            case CASUAL_FIELD_SHORT: return sizeof( short);
            case CASUAL_FIELD_LONG: return sizeof( long);
            case CASUAL_FIELD_CHAR: return 1;
            case CASUAL_FIELD_FLOAT: return sizeof( float);
            case CASUAL_FIELD_DOUBLE: return sizeof( double);
         }
         return 0;
      }

      template< typename T> T as( const std::string& bytes) { T value; std::memcpy( &value, bytes.data(), sizeof( T)); return value;}

      //! by the function for the type
      int add( char** buffer, long id, const std::string& v)
      {
         switch( type( id))
         {
            case CASUAL_FIELD_SHORT: return casual_field_add_short( buffer, id, as< short>( v));
            case CASUAL_FIELD_LONG: return casual_field_add_long( buffer, id, as< long>( v));
            case CASUAL_FIELD_CHAR: return casual_field_add_char( buffer, id, as< char>( v));
            case CASUAL_FIELD_FLOAT: return casual_field_add_float( buffer, id, as< float>( v));
            case CASUAL_FIELD_DOUBLE: return casual_field_add_double( buffer, id, as< double>( v));
            case CASUAL_FIELD_STRING: return casual_field_add_string( buffer, id, v.c_str());
            default: return casual_field_add_binary( buffer, id, v.data(), long( v.size()));
         }
      }
      int set( char** buffer, long id, long index, const std::string& v)
      {
         switch( type( id))
         {
            case CASUAL_FIELD_SHORT: return casual_field_set_short( buffer, id, index, as< short>( v));
            case CASUAL_FIELD_LONG: return casual_field_set_long( buffer, id, index, as< long>( v));
            case CASUAL_FIELD_CHAR: return casual_field_set_char( buffer, id, index, as< char>( v));
            case CASUAL_FIELD_FLOAT: return casual_field_set_float( buffer, id, index, as< float>( v));
            case CASUAL_FIELD_DOUBLE: return casual_field_set_double( buffer, id, index, as< double>( v));
            case CASUAL_FIELD_STRING: return casual_field_set_string( buffer, id, index, v.c_str());
            default: return casual_field_set_binary( buffer, id, index, v.data(), long( v.size()));
         }
      }
      std::string empty( long id) { return plain( type( id)) ? std::string( plain_size( type( id)), '\0') : std::string{};}

      struct Got { int code; std::string value;};

      Got get( const char* buffer, long id, long index)
      {
         switch( type( id))
         {
            case CASUAL_FIELD_SHORT: { short v = 0x7171; auto c = casual_field_get_short( buffer, id, index, &v); return { c, host( v)};}
            case CASUAL_FIELD_LONG: { long v = 0x7171; auto c = casual_field_get_long( buffer, id, index, &v); return { c, host( v)};}
            case CASUAL_FIELD_CHAR: { char v = 0x71; auto c = casual_field_get_char( buffer, id, index, &v); return { c, host( v)};}
            case CASUAL_FIELD_FLOAT: { float v = 0x71; auto c = casual_field_get_float( buffer, id, index, &v); return { c, host( v)};}
            case CASUAL_FIELD_DOUBLE: { double v = 0x71; auto c = casual_field_get_double( buffer, id, index, &v); return { c, host( v)};}
            case CASUAL_FIELD_STRING: { const char* v = nullptr; auto c = casual_field_get_string( buffer, id, index, &v); return { c, c ? std::string{} : std::string{ v}};}
            default: { const char* v = nullptr; long n = -1; auto c = casual_field_get_binary( buffer, id, index, &v, &n); return { c, c || n < 0 || n > 1 << 20 ? std::string{} : std::string( v, n)};}
         }
      }

      //! everything that can be asked of a buffer
      void check( const char* buffer, const Model& model, const std::vector< long>& universe, const char* which)
      {
         vk::evaluated();
         auto fail = [ &]( const std::string& kind, long id, long index, const std::string& text = {})
         { wrong( kind, std::string{ which} + ": " + name( id) + "[" + std::to_string( index) + "] " + text);};

         long total = 0, used = 0;
         for( auto& [ id, values] : model)
         {
            total += long( values.size());
            long need = -1;
            if( casual_field_minimum_need( id, &need)) fail( "the need of a field is not known", id, 0);
            for( auto& v : values) used += plain( type( id)) ? need : need + long( v.size());
         }
         long n = -1;
         if( casual_field_occurrences_in_buffer( buffer, &n) || n != total) fail( "wrong number of occurrences in the buffer", 0, n, "expected " + std::to_string( total));
         long reserved = -1, u = -1;
         if( casual_field_explore_buffer( buffer, &reserved, &u) || u != used || reserved < u) fail( "wrong size in use", 0, u, "expected " + std::to_string( used));

         for( auto id : universe)
         {
            auto found = model.find( id);
            static const std::vector< std::string> none;
            auto& values = found == model.end() ? none : found->second;
            if( casual_field_occurrences_of_id( buffer, id, &n) || n != long( values.size()))
               fail( "wrong number of occurrences of a field", id, n, "expected " + std::to_string( values.size()));

            for( long i = 0; i < long( values.size()); ++i)
            {
               auto& v = values[ i];
               auto got = get( buffer, id, i);
               if( got.code || got.value != v) fail( "a field does not have the value that was written", id, i, shown( got.value) + ", expected " + shown( v) + ", code " + std::to_string( got.code));

               auto size = long( v.size() + ( type( id) == CASUAL_FIELD_STRING));
               long count = -1;
               if( casual_field_explore_value( buffer, id, i, &count) || count != size) fail( "a field does not have the size of its value", id, i, std::to_string( count) + ", expected " + std::to_string( size));

               std::string memory( size + 8, '\x55');
               count = size;
               if( casual_field_get_value( buffer, id, i, memory.data(), &count) || count != size || memory.compare( 0, v.size(), v) != 0 || memory.substr( size) != std::string( 8, '\x55'))
                  fail( "a field does not have the value that was written", id, i, "(any type) " + shown( memory));
               if( size > 0)
               {
                  std::fill( memory.begin(), memory.end(), '\x55');
                  count = size - 1;
                  if( casual_field_get_value( buffer, id, i, memory.data(), &count) != CASUAL_FIELD_INVALID_ARGUMENT || memory != std::string( size + 8, '\x55'))
                     fail( "a value is read to less memory than it needs", id, i);
               }
            }
            for( long i : { -1l, long( values.size()), long( values.size()) + 1})
            {
               if( get( buffer, id, i).code != CASUAL_FIELD_OUT_OF_BOUNDS) fail( "an occurrence that does not exist can be read", id, i);
               long count = 0;
               if( casual_field_explore_value( buffer, id, i, &count) != CASUAL_FIELD_OUT_OF_BOUNDS) fail( "an occurrence that does not exist can be read", id, i, "(size)");
               if( casual_field_explore_value( buffer, id, i, nullptr) != CASUAL_FIELD_OUT_OF_BOUNDS) fail( "an occurrence that does not exist can be read", id, i, "(existence)");
               char memory[ 128]; count = sizeof( memory);
               if( casual_field_get_value( buffer, id, i, memory, &count) != CASUAL_FIELD_OUT_OF_BOUNDS) fail( "an occurrence that does not exist can be read", id, i, "(any type)");
            }
            // the wrong function
            short s; long l; const char* text;
            if( type( id) != CASUAL_FIELD_SHORT && casual_field_get_short( buffer, id, 0, &s) != CASUAL_FIELD_INVALID_ARGUMENT) fail( "a field is read as another type", id, 0);
            if( type( id) != CASUAL_FIELD_LONG && casual_field_get_long( buffer, id, 0, &l) != CASUAL_FIELD_INVALID_ARGUMENT) fail( "a field is read as another type", id, 0);
            if( type( id) != CASUAL_FIELD_STRING && casual_field_get_string( buffer, id, 0, &text) != CASUAL_FIELD_INVALID_ARGUMENT) fail( "a field is read as another type", id, 0);
         }

         // from one to the next
         long id = CASUAL_FIELD_NO_ID, index = 77;
         for( auto& [ expected, values] : model)
            for( long i = 0; i < long( values.size()); ++i)
            {
               if( casual_field_next( buffer, &id, &index) || id != expected || index != i)
                  fail( "the next field is another", expected, i, "got " + name( id) + "[" + std::to_string( index) + "]");
            }
         if( casual_field_next( buffer, &id, &index) != CASUAL_FIELD_OUT_OF_BOUNDS) fail( "there is a field after the last", id, index);
      }

      struct World
      {
         char* handle[ 2]{};
         Model model[ 2];
         std::vector< long> universe;

         World( std::vector< long> universe, long size) : universe( std::move( universe))
         {
            for( auto& h : handle)
               if( ! ( h = ::tpalloc( CASUAL_FIELD, nullptr, size))) wrong( "no buffer can be allocated");
         }
         ~World() { owned.assign( { handle[ 0], handle[ 1]}); clear();}

         void check() { field::check( handle[ 0], model[ 0], universe, "A"); field::check( handle[ 1], model[ 1], universe, "B");}

         void ok( int code, const char* what) { if( code) wrong( std::string{ what} + " is refused", casual_field_description( code));}
         void refused( int code, int expected, const char* what) { if( code != expected) wrong( std::string{ what} + " is not refused", casual_field_description( code));}
      };

      struct Operation
      {
         std::string name;
         std::function< void( World&)> apply;
      };

      using Operations = std::vector< Operation>;

      void add_value( Operations& result, int b, long id, std::string v)
      {
         result.push_back( { std::string{ "add "} + "AB"[ b] + " " + name( id) + " " + shown( v), [ =]( World& w)
         {
            w.ok( add( &w.handle[ b], id, v), "an addition");
            w.model[ b][ id].push_back( v);
         }});
      }

      void set_value( Operations& result, int b, long id, long index, std::string v)
      {
         result.push_back( { std::string{ "set "} + "AB"[ b] + " " + name( id) + "[" + std::to_string( index) + "] " + shown( v), [ =]( World& w)
         {
            auto found = w.model[ b].find( id);
            auto code = set( &w.handle[ b], id, index, v);
            if( found != w.model[ b].end() && index >= 0 && index < long( found->second.size()))
            {
               w.ok( code, "an update");
               found->second[ index] = v;
            }
            else w.refused( code, CASUAL_FIELD_OUT_OF_BOUNDS, "an update of an occurrence that does not exist");
         }});
      }

      void put_value( Operations& result, int b, long id, long index, std::string v)
      {
         result.push_back( { std::string{ "put "} + "AB"[ b] + " " + name( id) + "[" + std::to_string( index) + "] " + shown( v), [ =]( World& w)
         {
            w.ok( casual_field_put_value( &w.handle[ b], id, index, v.data(), long( v.size())), "a put");
            auto& values = w.model[ b][ id];
            if( index < 0) values.push_back( v);
            else
            {
               while( long( values.size()) <= index) values.push_back( empty( id));
               values[ index] = v;
            }
         }});
      }

      void remove_occurrence( Operations& result, int b, long id, long index)
      {
         result.push_back( { std::string{ "remove "} + "AB"[ b] + " " + name( id) + "[" + std::to_string( index) + "]", [ =]( World& w)
         {
            auto found = w.model[ b].find( id);
            auto code = casual_field_remove_occurrence( w.handle[ b], id, index);
            if( found != w.model[ b].end() && index >= 0 && index < long( found->second.size()))
            {
               w.ok( code, "a removal");
               found->second.erase( found->second.begin() + index);
               if( found->second.empty()) w.model[ b].erase( found);
            }
            else w.refused( code, CASUAL_FIELD_OUT_OF_BOUNDS, "a removal of an occurrence that does not exist");
         }});
      }

      void remove_id( Operations& result, int b, long id)
      {
         result.push_back( { std::string{ "remove all "} + "AB"[ b] + " " + name( id), [ =]( World& w)
         {
            w.ok( casual_field_remove_id( w.handle[ b], id), "a removal");
            w.model[ b].erase( id);
         }});
      }

      void add_empty( Operations& result, int b, long id)
      {
         result.push_back( { std::string{ "add empty "} + "AB"[ b] + " " + name( id), [ =]( World& w)
         {
            w.ok( casual_field_add_empty( &w.handle[ b], id), "an addition");
            w.model[ b][ id].push_back( empty( id));
         }});
      }

      void whole( Operations& result, bool all)
      {
         auto op = [ &]( std::string name, std::function< void( World&)> apply) { result.push_back( { name, apply});};
         op( "remove everything of A", []( World& w){ w.ok( casual_field_remove_all( w.handle[ 0]), "a removal"); w.model[ 0].clear();});
         op( "copy A to B", []( World& w){ w.ok( casual_field_copy_buffer( &w.handle[ 1], w.handle[ 0]), "a copy"); w.model[ 1] = w.model[ 0];});
         op( "copy B to A", []( World& w){ w.ok( casual_field_copy_buffer( &w.handle[ 0], w.handle[ 1]), "a copy"); w.model[ 0] = w.model[ 1];});
         op( "memory of A to B", []( World& w)
         {
            long used = 0;
            casual_field_explore_buffer( w.handle[ 0], nullptr, &used);
            std::string memory( w.handle[ 0], used);
            w.ok( casual_field_copy_memory( &w.handle[ 1], memory.data(), used), "a copy of memory");
            w.model[ 1] = w.model[ 0];
         });
         op( "A is sent", []( World& w){ auto sent = w.handle[ 0]; w.handle[ 0] = transfer( sent, 0); ::tpfree( sent);});
         if( all)
            op( "A is sent, other domain", []( World& w)
            {
               // inbound buffers belong to the service that got them
               auto received = transfer( w.handle[ 0], 1);
               w.ok( casual_field_copy_buffer( &w.handle[ 0], received), "a copy");
               if( ! cb::pool::holder().inbound( cb::handle::type{ received})) wrong( "a received buffer is not the inbound buffer");
            });
         for( long size : { 0l, 1l, 100l})
            op( "reallocate A " + std::to_string( size), [ size]( World& w)
            {
               auto h = ::tprealloc( w.handle[ 0], size);
               if( ! h) wrong( "a reallocation fails");
               w.handle[ 0] = h;
               long reserved = 0;
               casual_field_explore_buffer( h, &reserved, nullptr);
               if( reserved < size) wrong( "a reallocated buffer is smaller than asked for");
            });
         if( ! all) return;
         op( "refused operations", []( World& w)
         {
            auto& h = w.handle[ 0];
            auto before = h;
            w.refused( casual_field_add_long( &h, string1, 1), CASUAL_FIELD_INVALID_ARGUMENT, "an addition with another type");
            w.refused( casual_field_add_string( &h, long1, "a"), CASUAL_FIELD_INVALID_ARGUMENT, "an addition with another type");
            w.refused( casual_field_add_char( &h, CASUAL_FIELD_NO_ID, 'a'), CASUAL_FIELD_INVALID_ARGUMENT, "an addition with no id");
            w.refused( casual_field_add_binary( &h, binary1, "a", -1), CASUAL_FIELD_INVALID_ARGUMENT, "an addition with negative size");
            w.refused( casual_field_add_value( &h, CASUAL_FIELD_NO_ID, "a", 1), CASUAL_FIELD_INVALID_ARGUMENT, "an addition with no id");
            w.refused( casual_field_add_empty( &h, id( 8, 1)), CASUAL_FIELD_INVALID_ARGUMENT, "an addition with no type");
            w.refused( casual_field_set_long( &h, string1, 0, 1), CASUAL_FIELD_INVALID_ARGUMENT, "an update with another type");
            w.refused( casual_field_set_string( &h, string1, 0, nullptr), CASUAL_FIELD_INVALID_ARGUMENT, "an update with null");
            w.refused( casual_field_set_binary( &h, binary1, 0, "", -1), CASUAL_FIELD_INVALID_ARGUMENT, "an update with negative size");
            w.refused( casual_field_put_value( &h, id( 8, 1), 3, "a", 1), CASUAL_FIELD_INVALID_ARGUMENT, "a put with no type");
            w.refused( casual_field_remove_occurrence( h, CASUAL_FIELD_NO_ID, 0), CASUAL_FIELD_INVALID_ARGUMENT, "a removal with no id");
            long n = 0;
            w.refused( casual_field_occurrences_of_id( h, CASUAL_FIELD_NO_ID, &n), CASUAL_FIELD_INVALID_ARGUMENT, "a count with no id");
            char other[ 4]; char* wrong = other;
            w.refused( casual_field_add_long( &wrong, long1, 1), CASUAL_FIELD_INVALID_HANDLE, "an addition to something else");
            w.refused( casual_field_copy_buffer( &h, other), CASUAL_FIELD_INVALID_HANDLE, "a copy from something else");
            w.refused( casual_field_remove_all( other), CASUAL_FIELD_INVALID_HANDLE, "a removal from something else");
            if( before != h) ::wrong( "a refused operation moves the buffer");
         });
      }

      const std::string large( 300, 'L');

      void sequences( Enumerate& choose, const Operations& operations, const std::vector< long>& universe, long size, int depth)
      {
         log.clear();
         World world{ universe, size};
         auto length = 1 + choose( depth);
         std::vector< int> chosen;
         for( int i = 0; i < length; ++i)
         {
            auto& operation = operations[ choose( int( operations.size()))];
            note( operation.name);
            vk::transition();
            operation.apply( world);
         }
         world.check();
      }

      // ---------------- fields of several names, occurrences, everything that moves them
      void structure( Enumerate& choose, int depth, int shape)
      {
         static const std::vector< long> universe{ string1, string2, long1, binary1};
         static const Operations operations = [ shape]
         {
            Operations result;
            add_value( result, 0, string1, shape == 0 ? "" : "abc");
            add_value( result, 0, string1, large);
            add_value( result, 0, string2, "x");
            add_value( result, 0, long1, host( 5l));
            add_value( result, 0, binary1, { "\0\1", 2});
            add_value( result, 1, string1, "b");
            if( shape == 0) add_value( result, 1, binary1, "");
            if( shape == 1) add_empty( result, 0, string2);
            set_value( result, 0, string1, 0, "longer than it was");
            set_value( result, 0, string1, 1, "");
            set_value( result, 0, long1, 0, host( -1l));
            set_value( result, 0, string2, 0, large + "2");
            if( shape == 0) set_value( result, 0, binary1, 0, "");
            put_value( result, 0, string1, 2, "put");
            if( shape == 1) { put_value( result, 0, binary1, 1, { "\0p", 2}); put_value( result, 0, string2, -1, "p");}
            remove_occurrence( result, 0, string1, 0);
            remove_occurrence( result, 0, string1, 1);
            remove_occurrence( result, 0, long1, 0);
            remove_id( result, 0, string1);
            whole( result, shape == 1);
            return result;
         }();
         sequences( choose, operations, universe, shape == 0 ? 0 : 64, depth);
      }

      // ---------------- every type with its boundary values
      void types( Enumerate& choose, int depth, int shape)
      {
         static const int type = shape + 1;
         static const long one = id( type, 1), two = id( type, CASUAL_FIELD_TYPE_BASE - 1);
         static const std::vector< long> universe{ one, two, string2};
         static const Operations operations = []
         {
            std::vector< std::string> values;
            auto numbers = [ &]( auto v){ using L = std::numeric_limits< decltype( v)>; for( auto x : { L::min(), L::lowest(), L::max(), decltype( v)( -1), decltype( v)( 0)}) values.push_back( host( x));};
            switch( type)
            {
               case CASUAL_FIELD_SHORT: numbers( short{}); break;
               case CASUAL_FIELD_LONG: numbers( long{}); break;
               case CASUAL_FIELD_CHAR: numbers( char{}); break;
               case CASUAL_FIELD_FLOAT: numbers( float{}); values.push_back( host( std::numeric_limits< float>::denorm_min())); values.push_back( host( -std::numeric_limits< float>::infinity())); break;
               case CASUAL_FIELD_DOUBLE: numbers( double{}); values.push_back( host( std::numeric_limits< double>::denorm_min())); values.push_back( host( -std::numeric_limits< double>::infinity())); break;
               case CASUAL_FIELD_STRING: values = { "", "a", "\xff\x01\n", std::string( 15, 'x'), std::string( 4096, 'y')}; break;
               case CASUAL_FIELD_BINARY: values = { "", { "\0", 1}, { "a\0b\0", 4}, std::string( 16, '\xff'), std::string( 4096, '\0')}; break;
            }
            std::sort( values.begin(), values.end());
            values.erase( std::unique( values.begin(), values.end()), values.end());
            Operations result;
            for( auto& v : values)
            {
               add_value( result, 0, one, v);
               set_value( result, 0, one, 0, v);
            }
            add_value( result, 0, two, values.back());
            add_value( result, 0, string2, "a string");
            set_value( result, 0, one, 1, values.front());
            put_value( result, 0, two, 1, values.front());
            add_empty( result, 0, two);
            remove_occurrence( result, 0, one, 0);
            remove_id( result, 0, string2);
            result.push_back( { "A is sent", []( World& w){ auto sent = w.handle[ 0]; w.handle[ 0] = transfer( sent, 0); ::tpfree( sent);}});
            return result;
         }();
         sequences( choose, operations, universe, 0, depth);
      }

      // ---------------- memory from somewhere
      struct Parsed { std::map< long, long> occurrences; std::size_t used;};

      std::optional< Parsed> parse( const std::string& m)
      {
         auto number = [ &]( std::size_t at){ std::uint64_t v = 0; for( int i = 0; i < 8; ++i) v = v << 8 | std::uint8_t( m[ at + i]); return long( v);};
         Parsed result{ {}, m.size()};
         std::size_t at = 0;
         while( at < m.size())
         {
            if( m.size() - at < 16) return {};
            auto size = number( at + 8);
            if( size < 0 || std::size_t( size) > m.size() - at - 16) return {};
            ++result.occurrences[ number( at)];
            at += 16 + size;
         }
         return result;
      }

      void memory( Enumerate& choose, int, int shape)
      {
         log.clear();
         static const std::vector< long> universe{ string1, string2, long1, binary1};
         static const std::string valid = [ shape]
         {
            World w{ universe, 0};
            auto put = [ &]( long id, std::string v){ add( &w.handle[ 0], id, v);};
            if( shape == 0) { put( long1, host( 1l)); put( string1, "ab"); put( binary1, ""); put( string1, "");}
            if( shape == 1) { put( binary1, std::string( 300, '\0')); put( string2, "x");}
            if( shape == 2) { put( binary1, ""); put( binary1, ""); put( binary1, "");}
            long used = 0;
            casual_field_explore_buffer( w.handle[ 0], nullptr, &used);
            return std::string( w.handle[ 0], used);
         }();

         auto bytes = valid;
         auto kind = choose( 3);
         auto end = choose( int( valid.size()) + 1);
         bytes.resize( end);
         if( kind > 0 && end > 0)
         {
            if( kind == 1 && end != int( valid.size())) return;      // corrupted, whole
            static const unsigned char evil[] = { 0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff, 0xf0};
            auto at = kind == 1 ? choose( int( bytes.size())) : int( bytes.size()) - 1 - choose( std::min( int( bytes.size()), 9));
            bytes[ at] = char( evil[ choose( sizeof( evil))]);
         }
         auto way = choose( 3);
         note( std::string{ way == 0 ? "memory " : way == 1 ? "message " : "call "} + ( bytes.size() < 100 ? shown( bytes) : std::to_string( bytes.size()) + " bytes") + " " + std::to_string( kind) + "/" + std::to_string( end));
         vk::transition();
         vk::evaluated();

         auto expected = parse( bytes);
         vk::cover( expected ? "memory that is a buffer" : "memory that is no buffer");
         World w{ universe, 0};
         add( &w.handle[ 0], string1, "before");
         w.model[ 0][ string1] = { "before"};
         char* target = w.handle[ 0];
         if( way == 0)
         {
            auto code = casual_field_copy_memory( &w.handle[ 0], bytes.data(), long( bytes.size()));
            target = w.handle[ 0];
            if( ! expected)
            {
               w.refused( code, CASUAL_FIELD_INVALID_ARGUMENT, "memory that is not a buffer");
               return w.check();
            }
            w.ok( code, "a copy of memory");
         }
         else
         {
            cb::Payload payload;
            payload.type = CASUAL_FIELD "/";
            payload.data.assign( reinterpret_cast< const std::byte*>( bytes.data()), reinterpret_cast< const std::byte*>( bytes.data()) + bytes.size());
            char* got = nullptr;
            try { got = way == 1 ? std::get< 0>( cb::pool::holder().insert( std::move( payload))).raw() : cb::pool::holder().adopt( std::move( payload)).raw();}
            catch( ...) { if( expected) wrong( "a received buffer is refused"); return w.check();}
            if( ! expected) wrong( "a message that is not a buffer is not refused");
            if( ! got) wrong( "a buffer that is transferred is not there at the receiver");
            target = got;
            if( way == 1) owned.push_back( got);
         }
         long n = 0, total = 0, used = 0;
         for( auto& [ id, count] : expected->occurrences)
         {
            total += count;
            if( id == CASUAL_FIELD_NO_ID) continue;
            if( casual_field_occurrences_of_id( target, id, &n) || n != count) wrong( "wrong number of occurrences of a field", name( id));
         }
         if( casual_field_occurrences_in_buffer( target, &n) || n != total) wrong( "wrong number of occurrences in the buffer");
         if( casual_field_explore_buffer( target, nullptr, &used) || used != long( bytes.size())) wrong( "wrong size in use");
         if( std::memcmp( target, bytes.data(), bytes.size())) wrong( "a copy has another content");
         if( way == 1) ::tpfree( target);
      }

      // ---------------- readable forms
      void forms( Enumerate& choose, int depth, int shape)
      {
         static const char* formats[] = { "json", "yaml", "xml", "ini"};
         static const std::vector< long> universe{ short1, long1, char1, float1, double1, string1, string2, binary1};
         static bool table = []
         {
            auto path = std::string{ std::getenv( "VK_SCRATCH")} + "/tmp/field-" + std::to_string( ::syscall( SYS_getpid)) + ".json";
            std::ofstream file{ path};
            file << R"({"groups":[{"base":0,"fields":[)";
            const char* separator = "";
            for( auto id : universe)
            {
               const char* type = nullptr;
               casual_field_name_of_type( field::type( id), &type);
               file << separator << R"({"id":)" << id % CASUAL_FIELD_TYPE_BASE << R"(,"name":")" << name( id) << R"(","type":")" << type << "\"}";
               separator = ",";
            }
            file << "]}]}";
            file.close();
            ::setenv( "CASUAL_FIELD_TABLE", path.c_str(), 1);
            return true;
         }();
         static const Operations operations = []
         {
            Operations result;
            add_value( result, 0, short1, host( short{ -7}));
            add_value( result, 0, long1, host( std::numeric_limits< long>::max()));
            add_value( result, 0, long1, host( -1l));
            add_value( result, 0, char1, "a");
            add_value( result, 0, float1, host( 1.5f));
            add_value( result, 0, double1, host( -0.25));
            add_value( result, 0, string1, "");
            add_value( result, 0, string1, "a text");
            add_value( result, 0, string2, "<&>\"'\\ {[:,]}");
            add_value( result, 0, binary1, "");
            add_value( result, 0, binary1, { "\0\1\xff", 3});
            remove_occurrence( result, 0, string1, 0);
            set_value( result, 0, string1, 0, "updated");
            return result;
         }();
         log.clear();
         for( auto id : universe)
         {
            const char* found = nullptr; long back = 0;
            if( casual_field_name_of_id( id, &found) || name( id) != found || casual_field_id_of_name( found, &back) || back != id) wrong( "a field of the table has another name");
         }
         World world{ universe, 0};
         auto length = choose( depth + 1);
         for( int i = 0; i < length; ++i)
         {
            auto& operation = operations[ choose( int( operations.size()))];
            note( operation.name);
            vk::transition();
            operation.apply( world);
         }
         std::stringstream stream;
         std::string text;
         try
         {
            casual::buffer::field::internal::stream( world.handle[ 0], stream, formats[ shape]);
            text = stream.str();
         }
         catch( ...) { wrong( "a buffer can not be written", formats[ shape]);}
         auto read = casual::buffer::field::internal::stream( stream, formats[ shape]);
         if( ! read) wrong( "a written buffer can not be read", std::string{ formats[ shape]} + "\n" + text);
         log += std::string{ formats[ shape]} + "\n" + text + "\n";
         field::check( read, world.model[ 0], universe, "read");
         ::tpfree( read);
      }

      void body()
      {
         struct Scenario { std::string name; std::function< void( Enumerate&, int, int)> run; int shape, depth, deep;};
         std::vector< Scenario> scenarios{
            { "structure, no space to start with", structure, 0, 4, 5},
            { "structure, some space to start with", structure, 1, 3, 4},
            { "memory, some fields", memory, 0, 0, 0},
            { "memory, a large field", memory, 1, 0, 0},
            { "memory, empty fields", memory, 2, 0, 0}};
         static const char* names[] = { "short", "long", "char", "float", "double", "string", "binary"};
         for( int i = 0; i < 7; ++i) scenarios.push_back( { std::string{ "values of type "} + names[ i], types, i, 3, 4});
         static const char* formats[] = { "json", "yaml", "xml"};
         for( int i = 0; i < 3; ++i) scenarios.push_back( { std::string{ "written and read as "} + formats[ i], forms, i, 3, 4});

         if( auto only = std::getenv( "VK_ONLY")) std::erase_if( scenarios, [ only]( auto& s){ return s.name.find( only) == std::string::npos;});
         std::vector< std::string> all;
         for( auto& s : scenarios) all.push_back( s.name);
         vkc::boot();
         auto& scenario = scenarios[ vk::choose( all, "scenario")];
         Enumerate enumerate{ 2};
         enumerate.run( [ &]{ scenario.run( enumerate, vk::thorough() ? scenario.deep : scenario.depth, scenario.shape);});
         vk::finish( "enumerated");
      }
   }
}

namespace
{
   // =========================================================================== B02

   namespace other
   {
      // ---------------- order: a sequence of values
      struct Value { int type; std::string bytes; long size;};   //!< size: what it takes in the buffer

      enum { boolean, character, small, number, single, real, text, binary};
      const char* names[] = { "bool", "char", "short", "long", "float", "double", "string", "binary"};

      int add( char** h, int type, const std::string& v)
      {
         using field::as;
         switch( type)
         {
            case boolean: return casual_order_add_bool( h, v[ 0] != 0);
            case character: return casual_order_add_char( h, v[ 0]);
            case small: return casual_order_add_short( h, as< short>( v));
            case number: return casual_order_add_long( h, as< long>( v));
            case single: return casual_order_add_float( h, as< float>( v));
            case real: return casual_order_add_double( h, as< double>( v));
            case text: return casual_order_add_string( h, v.c_str());
            default: return casual_order_add_binary( h, v.data(), long( v.size()));
         }
      }
      std::pair< int, std::string> get( const char* h, int type)
      {
         using field::host;
         switch( type)
         {
            case boolean: { bool v{}; auto c = casual_order_get_bool( h, &v); return { c, host( char( v))};}
            case character: { char v{}; auto c = casual_order_get_char( h, &v); return { c, host( v)};}
            case small: { short v{}; auto c = casual_order_get_short( h, &v); return { c, host( v)};}
            case number: { long v{}; auto c = casual_order_get_long( h, &v); return { c, host( v)};}
            case single: { float v{}; auto c = casual_order_get_float( h, &v); return { c, host( v)};}
            case real: { double v{}; auto c = casual_order_get_double( h, &v); return { c, host( v)};}
            case text: { const char* v = nullptr; auto c = casual_order_get_string( h, &v); return { c, c ? "" : v};}
            default: { const char* v = nullptr; long n = -1; auto c = casual_order_get_binary( h, &v, &n); return { c, c || n < 0 || n > 1 << 20 ? std::string( c ? 0 : 1, '?') : std::string( v, n)};}
         }
      }

      struct Order
      {
         char* handle = nullptr;
         std::vector< Value> values;
         std::size_t at = 0;              //!< next to read. May be past the end when the buffer has been reset
         long consumed = 0, used = 0;

         void check()
         {
            vk::evaluated();
            long r = -1, u = -1, c = -1;
            if( casual_order_explore_buffer( handle, &r, &u, &c) || u != used || c != consumed || r < u)
               wrong( "wrong size in use", "used " + std::to_string( u) + ", expected " + std::to_string( used) + ", read " + std::to_string( c) + ", expected " + std::to_string( consumed) + ", reserved " + std::to_string( r));
         }
         long left() const { return used - consumed;}
      };

      void order( Enumerate& choose, int depth, int shape)
      {
         struct Add { int type; std::string value;};
         using field::host;
         static const std::vector< Add> adds = [ shape]() -> std::vector< Add>
         {
            if( shape == 0) return {
               { boolean, host( true)}, { boolean, host( false)}, { character, "c"}, { small, host( short{ 0x0101})}, { number, host( -8l)}, { number, host( 3l)},
               { text, ""}, { text, "abc"}, { binary, ""}, { binary, { "\1\2", 2}}, { binary, std::string( 200, 'b')}};
            using L = std::numeric_limits< long>;
            return {
               { character, "\xff"}, { small, host( std::numeric_limits< short>::min())}, { number, host( L::min())}, { number, host( L::max())}, { single, host( -1.5f)}, { single, host( std::numeric_limits< float>::denorm_min())},
               { real, host( std::numeric_limits< double>::max())}, { real, host( -0.0)}, { text, std::string( 300, 't')}, { binary, std::string( 8, '\0')}};
         }();

         log.clear();
         Order order;
         if( ! ( order.handle = ::tpalloc( CASUAL_ORDER, nullptr, shape == 0 ? 0 : 16))) wrong( "no buffer can be allocated");
         order.check();
         auto length = 1 + choose( depth);
         for( int i = 0; i < length; ++i)
         {
            auto count = int( adds.size());
            auto what = choose( count + 10);
            vk::transition();
            if( what < count)
            {
               auto& a = adds[ what];
               note( std::string{ "add "} + names[ a.type] + " " + shown( a.value));
               if( auto code = add( &order.handle, a.type, a.value)) wrong( "an addition is refused", casual_order_description( code));
               long used = 0;
               casual_order_explore_buffer( order.handle, nullptr, &used, nullptr);
               order.values.push_back( { a.type, a.value, used - order.used});
               if( used - order.used < long( a.value.size())) wrong( "a value takes less than its size");
               order.used = used;
            }
            else switch( what - count)
            {
               case 0: case 1: case 2:
               {
                  // what is next, or none
                  if( order.at < order.values.size())
                  {
                     auto& v = order.values[ order.at];
                     note( std::string{ "get "} + names[ v.type]);
                     auto [ code, got] = get( order.handle, v.type);
                     if( code) wrong( "a value can not be read", casual_order_description( code));
                     if( got != v.bytes) wrong( "a value is not what was written", shown( got) + ", expected " + shown( v.bytes));
                     ++order.at;
                     order.consumed += v.size;
                  }
                  else
                  {
                     // past the end
                     for( int t : { boolean, character, small, number, single, real, text, binary})
                     {
                        note( std::string{ "get "} + names[ t]);
                        if( get( order.handle, t).first != CASUAL_ORDER_OUT_OF_BOUNDS) wrong( "reading past the end is not refused", names[ t]);
                        order.check();
                     }
                     vk::cover( "reads past the end");
                  }
                  if( what - count == 0) break;
                  // all that needs more than what is left
                  if( order.left() >= 0 && order.left() < 8)
                     for( auto [ t, size] : { std::pair{ small, 2l}, { number, 8l}, { single, 4l}, { real, 8l}, { binary, 8l}})
                        if( order.left() < size)
                        {
                           note( std::string{ "get "} + names[ t]);
                           if( get( order.handle, t).first != CASUAL_ORDER_OUT_OF_BOUNDS) wrong( "reading past the end is not refused", names[ t]);
                           order.check();
                        }
                  if( what - count == 2 && order.left() > 0)
                  {
                     // a text without end
                     auto begin = order.handle + order.consumed;
                     if( std::find( begin, begin + order.left(), '\0') == begin + order.left())
                     {
                        note( "get string");
                        vk::cover( "reads of a text without end");
                        if( get( order.handle, text).first != CASUAL_ORDER_OUT_OF_BOUNDS) wrong( "reading past the end is not refused", "a text without end");
                        order.check();
                     }
                     // a size that is none
                     if( order.at < order.values.size() && order.values[ order.at].type == number)
                     {
                        auto size = field::as< long>( order.values[ order.at].bytes);
                        if( size < 0 || size > order.left() - 8)
                        {
                           note( "get binary");
                           vk::cover( "reads of binary with an impossible size");
                           if( get( order.handle, binary).first != CASUAL_ORDER_OUT_OF_BOUNDS) wrong( "reading past the end is not refused", "an impossible size");
                        }
                     }
                  }
                  break;
               }
               case 3:
                  note( "start to read");
                  if( casual_order_get_prepare( order.handle)) wrong( "a reset is refused");
                  order.at = 0; order.consumed = 0;
                  break;
               case 4:
                  note( "start over");
                  if( casual_order_add_prepare( order.handle) || casual_order_get_prepare( order.handle)) wrong( "a reset is refused");
                  order.values.clear(); order.at = 0; order.used = order.consumed = 0;
                  break;
               case 5: case 6:
               {
                  note( "sent");
                  auto sent = order.handle;
                  order.handle = transfer( sent, 0);
                  ::tpfree( sent);
                  order.at = 0; order.consumed = 0;
                  if( what - count == 6)
                  {
                     // as a service gets it
                     note( "to a service");
                     auto inbound = transfer( order.handle, 1);
                     ::tpfree( inbound);                      // not until the service is done
                     Order received = order;
                     received.handle = inbound;
                     received.check();
                     for( auto& v : received.values)
                     {
                        auto [ code, got] = get( inbound, v.type);
                        if( code || got != v.bytes) wrong( "a value is not what was written", shown( got) + ", expected " + shown( v.bytes));
                     }
                     cb::pool::holder().clear();
                  }
                  break;
               }
               case 7: case 8:
               {
                  auto size = what - count == 7 ? 0l : 100l;
                  note( "reallocate " + std::to_string( size));
                  if( ! ( order.handle = ::tprealloc( order.handle, size))) wrong( "a reallocation fails");
                  long reserved = 0;
                  casual_order_explore_buffer( order.handle, &reserved, nullptr, nullptr);
                  if( reserved < size) wrong( "a reallocated buffer is smaller than asked for");
                  break;
               }
               case 9:
               {
                  note( "refused operations");
                  auto h = order.handle;
                  char something[ 4]; char* none = something; long l = 0;
                  if( casual_order_add_binary( &h, "a", -1) != CASUAL_ORDER_INVALID_ARGUMENT) wrong( "a negative size is not refused");
                  if( casual_order_add_long( &none, 1) != CASUAL_ORDER_INVALID_HANDLE || casual_order_get_long( none, &l) != CASUAL_ORDER_INVALID_HANDLE
                     || casual_order_add_prepare( none) != CASUAL_ORDER_INVALID_HANDLE || casual_order_get_prepare( none) != CASUAL_ORDER_INVALID_HANDLE) wrong( "what is no buffer is not refused");
                  if( h != order.handle) wrong( "a refused operation moves the buffer");
                  break;
               }
            }
            order.check();
         }
         // and finally all of it
         casual_order_get_prepare( order.handle);
         for( auto& v : order.values)
         {
            auto [ code, got] = get( order.handle, v.type);
            if( code || got != v.bytes) wrong( "a value is not what was written", shown( got) + ", expected " + shown( v.bytes));
         }
         owned.push_back( order.handle);
         clear();
      }

      // ---------------- octet: bytes
      void octet( Enumerate& choose, int depth, int shape)
      {
         static const char* subtypes[] = { "", CASUAL_OCTET_XML, CASUAL_OCTET_JSON, CASUAL_OCTET_YAML};
         static const std::vector< std::string> contents{ "", std::string( 1, '\0'), "abc", std::string( "a\0\xff", 3), std::string( 100, 'x')};
         log.clear();
         std::vector< char*> handle( 2);
         std::vector< std::string> model( 2);
         for( int b = 0; b < 2; ++b)
         {
            auto size = choose( 2) * 5;
            note( "allocate " + std::to_string( size));
            if( ! ( handle[ b] = ::tpalloc( CASUAL_OCTET, subtypes[ shape], size))) wrong( "no buffer can be allocated");
            model[ b].resize( size);
            const char* v = nullptr; long n = -1;
            if( casual_octet_get( handle[ b], &v, &n) || n != size) wrong( "a buffer does not have the size that was asked for", std::to_string( n));
            model[ b].assign( v, n);
         }
         auto check = [ &]
         {
            vk::evaluated();
            for( int b = 0; b < 2; ++b)
            {
               const char* v = nullptr; long n = -1;
               if( casual_octet_get( handle[ b], &v, &n)) wrong( "a buffer can not be read");
               if( v != handle[ b]) wrong( "the bytes are somewhere else");
               if( n != long( model[ b].size()) || std::string( v, n) != model[ b]) wrong( "a buffer does not have the bytes that were set", shown( std::string( v, n)) + ", expected " + shown( model[ b]));
               const char* name = nullptr; n = -1;
               if( casual_octet_explore_buffer( handle[ b], &name, &n) || n != long( model[ b].size()) || std::string{ name ? name : ""} != subtypes[ shape]) wrong( "a buffer has another type or size", name ? name : "none");
               char type[ 9]{}, subtype[ 17]{};
               if( ::tptypes( handle[ b], type, subtype) != long( model[ b].size()) || std::string{ type} != CASUAL_OCTET || std::string{ subtype} != subtypes[ shape]) wrong( "a buffer has another type or size", "tptypes");
            }
         };
         check();
         auto length = choose( depth + 1);
         for( int i = 0; i < length; ++i)
         {
            auto b = choose( 2);
            std::string on{ "AB"[ b]};
            auto what = choose( int( contents.size()) + 9);
            vk::transition();
            if( what < int( contents.size()))
            {
               note( "set " + on + " " + shown( contents[ what]));
               if( casual_octet_set( &handle[ b], contents[ what].data(), long( contents[ what].size()))) wrong( "a set is refused");
               model[ b] = contents[ what];
            }
            else switch( what - int( contents.size()))
            {
               case 0: case 1: case 2: case 3:
               {
                  static const long sizes[] = { 0, 1, 4, 200};
                  auto size = sizes[ what - int( contents.size())];
                  note( "reallocate " + on + " " + std::to_string( size));
                  if( ! ( handle[ b] = ::tprealloc( handle[ b], size))) wrong( "a reallocation fails");
                  const char* v = nullptr; long n = -1;
                  if( casual_octet_get( handle[ b], &v, &n) || n != size) wrong( "a buffer does not have the size that was asked for", std::to_string( n));
                  auto kept = std::min( size, long( model[ b].size()));
                  if( model[ b].compare( 0, kept, v, kept) != 0) wrong( "a reallocated buffer loses its content");
                  model[ b].assign( v, n);
                  break;
               }
               case 4:
               {
                  note( on + " is sent");
                  auto sent = handle[ b];
                  handle[ b] = transfer( sent, 0);
                  ::tpfree( sent);
                  break;
               }
               case 5:
               {
                  note( on + " is sent to a service");
                  auto inbound = transfer( handle[ b], 1);
                  ::tpfree( inbound);
                  const char* v = nullptr; long n = -1;
                  if( casual_octet_get( inbound, &v, &n) || n != long( model[ b].size()) || std::string( v, n) != model[ b]) wrong( "a buffer does not have the bytes that were set", "(received)");
                  cb::pool::holder().clear();
                  break;
               }
               case 6:
                  note( "freed and allocated " + on);
                  ::tpfree( handle[ b]);
                  handle[ b] = ::tpalloc( CASUAL_OCTET, subtypes[ shape], 2);
                  if( casual_octet_set( &handle[ b], "ab", 2)) wrong( "a set is refused");
                  model[ b] = "ab";
                  break;
               case 7:
               {
                  note( "the user writes in " + on);
                  if( ! model[ b].empty()) { handle[ b][ model[ b].size() - 1] = '!'; model[ b].back() = '!';}
                  break;
               }
               case 8:
               {
                  note( "refused operations " + on);
                  char something[ 4]; char* none = something; const char* v = nullptr; long n = -1; auto h = handle[ b];
                  if( casual_octet_set( &h, "abc", -1) != CASUAL_OCTET_INVALID_ARGUMENT) wrong( "a negative size is not refused");
                  if( casual_octet_set( &none, "abc", 3) != CASUAL_OCTET_INVALID_HANDLE || casual_octet_get( none, &v, &n) != CASUAL_OCTET_INVALID_HANDLE
                     || casual_octet_explore_buffer( none, nullptr, nullptr) != CASUAL_OCTET_INVALID_HANDLE) wrong( "what is no buffer is not refused");
                  if( h != handle[ b]) wrong( "a refused operation moves the buffer");
                  break;
               }
            }
            check();
         }
         owned = handle;
         clear();
      }

      // ---------------- string
      void string( Enumerate& choose, int depth, int)
      {
         static const std::vector< std::string> contents{ "", "abc", "\xff\x01", std::string( 100, 'x')};
         log.clear();
         struct Entry { char* handle{}; std::string memory;};     // memory: known content of what is allocated, '?' for unknown
         std::vector< Entry> all( 2);
         for( auto& e : all)
         {
            auto size = std::array{ 0l, 1l, 6l}[ choose( 3)];
            note( "allocate " + std::to_string( size));
            if( ! ( e.handle = ::tpalloc( CASUAL_STRING, nullptr, size))) wrong( "no buffer can be allocated");
            long n = -1;
            if( casual_string_explore_buffer( e.handle, &n, nullptr) || n != std::max( size, 1l)) wrong( "a buffer does not have the size that was asked for", std::to_string( n));
            e.memory.assign( e.handle, n);
            if( e.memory[ 0] != '\0') wrong( "a new text is not empty");
         }
         auto valid = []( auto& e){ return e.memory.find( '\0') != std::string::npos;};
         auto check = [ &]
         {
            vk::evaluated();
            for( auto& e : all)
            {
               const char* v = nullptr; long n = -1, u = -1;
               if( casual_string_explore_buffer( e.handle, &n, nullptr) || n != long( e.memory.size())) wrong( "a buffer has another size", std::to_string( n) + ", expected " + std::to_string( e.memory.size()));
               if( ::tptypes( e.handle, nullptr, nullptr) != ( valid( e) ? n : -1)) wrong( "a buffer has another size", "tptypes");
               if( std::string( e.handle, n) != e.memory) wrong( "a buffer has another content", shown( std::string( e.handle, n)) + ", expected " + shown( e.memory));
               auto code = casual_string_get( e.handle, &v);
               auto used = casual_string_explore_buffer( e.handle, nullptr, &u);
               if( valid( e))
               {
                  if( code || v != e.handle) wrong( "a text can not be read");
                  if( used || u != long( std::strlen( v)) + 1) wrong( "a text has another size");
               }
               else
               {
                  vk::cover( "texts without end");
                  if( code != CASUAL_STRING_OUT_OF_BOUNDS || ! used) wrong( "a text without end is not refused");
               }
            }
         };
         check();
         auto length = choose( depth + 1);
         for( int i = 0; i < length; ++i)
         {
            auto b = choose( 2);
            auto& e = all[ b];
            std::string on{ "AB"[ b]};
            auto what = choose( int( contents.size()) + 9);
            vk::transition();
            if( what < int( contents.size()))
            {
               note( "set " + on + " " + shown( contents[ what]));
               if( casual_string_set( &e.handle, contents[ what].c_str())) wrong( "a set is refused");
               e.memory = contents[ what] + '\0';
            }
            else switch( what - int( contents.size()))
            {
               case 0: case 1: case 2: case 3:
               {
                  auto size = std::array{ 0l, 1l, 3l, 200l}[ what - int( contents.size())];
                  note( "reallocate " + on + " " + std::to_string( size));
                  if( ! ( e.handle = ::tprealloc( e.handle, size))) wrong( "a reallocation fails");
                  long n = -1;
                  if( casual_string_explore_buffer( e.handle, &n, nullptr) || n != std::max( size, 1l)) wrong( "a buffer does not have the size that was asked for", std::to_string( n));
                  auto kept = std::min( n, long( e.memory.size()));
                  std::string now( e.handle, n);
                  if( now.back() != '\0') wrong( "a reallocated text has no end");
                  if( now.compare( 0, std::min( kept, n - 1), e.memory, 0, std::min( kept, n - 1)) != 0) wrong( "a reallocated buffer loses its content");
                  e.memory = now;
                  break;
               }
               case 4: case 5:
               {
                  auto service = what - int( contents.size()) == 5;
                  note( on + ( service ? " is sent to a service" : " is sent"));
                  if( ! valid( e))
                  {
                     try { cb::pool::holder().get( cb::handle::type{ e.handle});}
                     catch( ...) { break;}
                     wrong( "a text without end is not refused", "(sent)");
                  }
                  auto received = transfer( e.handle, service);
                  const char* v = nullptr;
                  if( casual_string_get( received, &v) || std::string{ v} != e.memory.c_str()) wrong( "a text is not what was set", "(received)");
                  if( service) { ::tpfree( received); cb::pool::holder().clear();}
                  else
                  {
                     ::tpfree( e.handle);
                     e.handle = received;
                     e.memory.resize( std::strlen( e.memory.c_str()) + 1);
                  }
                  break;
               }
               case 6:
                  note( "the user fills " + on);
                  std::fill( e.memory.begin(), e.memory.end(), '!');
                  std::memset( e.handle, '!', e.memory.size());
                  break;
               case 7:
               {
                  note( "a received text");
                  // as it may come from elsewhere
                  auto bytes = std::vector< std::string>{ "", "a", std::string( 1, '\0'), std::string( "a\0", 2), std::string( "a\0b", 3)}[ choose( 5)];
                  note( shown( bytes));
                  cb::Payload payload;
                  payload.type = CASUAL_STRING "/";
                  payload.data.assign( reinterpret_cast< const std::byte*>( bytes.data()), reinterpret_cast< const std::byte*>( bytes.data()) + bytes.size());
                  char* got = nullptr;
                  try { got = std::get< 0>( cb::pool::holder().insert( std::move( payload))).raw();}
                  catch( ...) { if( bytes.find( '\0') != std::string::npos) wrong( "a text is refused"); break;}
                  if( bytes.find( '\0') == std::string::npos) wrong( "a text without end is not refused", "(received)");
                  ::tpfree( e.handle);
                  e.handle = got;
                  e.memory = bytes;
                  break;
               }
               case 8:
               {
                  note( "refused operations " + on);
                  char something[ 4] = "x"; char* none = something; const char* v = nullptr;
                  if( casual_string_set( &none, "abc") != CASUAL_STRING_INVALID_HANDLE || casual_string_get( none, &v) != CASUAL_STRING_INVALID_HANDLE
                     || casual_string_explore_buffer( none, nullptr, nullptr) != CASUAL_STRING_INVALID_HANDLE) wrong( "what is no buffer is not refused");
                  break;
               }
            }
            check();
         }
         for( auto& e : all) owned.push_back( e.handle);
         clear();
      }

      void body()
      {
         struct Scenario { std::string name; std::function< void( Enumerate&, int, int)> run; int shape, depth, deep;};
         std::vector< Scenario> scenarios{
            { "order, small values", order, 0, 5, 6},
            { "order, boundary values", order, 1, 4, 5},
            { "octet", octet, 0, 4, 5},
            { "octet xml", octet, 1, 3, 4},
            { "octet json", octet, 2, 3, 4},
            { "octet yaml", octet, 3, 3, 4},
            { "string", string, 0, 3, 4}};
         if( auto only = std::getenv( "VK_ONLY")) std::erase_if( scenarios, [ only]( auto& s){ return s.name.find( only) == std::string::npos;});
         std::vector< std::string> all;
         for( auto& s : scenarios) all.push_back( s.name);
         vkc::boot();
         auto& scenario = scenarios[ vk::choose( all, "scenario")];
         Enumerate enumerate{ 2};
         enumerate.run( [ &]{ scenario.run( enumerate, vk::thorough() ? scenario.deep : scenario.depth, scenario.shape);});
         vk::finish( "enumerated");
      }
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "B01: every sequence of operations (add, set, put, remove, copy, transfer, reallocate, refused ones) up to the stated depth on two field buffers, for universes of fields and values, each followed by every question the interface offers; every truncation and (structural) corruption of stored buffers. B02: every sequence of operations up to the stated depth on order, octet and string buffers",
      .assumptions = { "pointers that are given as buffers, and for values, point to memory of the size the interface demands" },
      }, []( const std::string& property)
      {
         if( property == "B01") field::body();
         if( property == "B02") other::body();
         vk::broken( "unknown property " + property);
      });
}
