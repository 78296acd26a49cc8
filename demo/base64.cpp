//! the build in this sandbox lacks cppcodec, and leaves base64 out. This is preloaded in the demonstration only.
#include "common/transcode.h"
#include <cstdint>
namespace casual::common::transcode::base64::detail
{
   static const char* table = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
   platform::size::type encode( const Data source, Data target)
   {
      auto in = static_cast< const std::uint8_t*>( source.memory);
      auto out = static_cast< char*>( target.memory);
      platform::size::type n = 0;
      for( platform::size::type i = 0; i < source.bytes; i += 3)
      {
         auto left = source.bytes - i;
         std::uint32_t v = in[ i] << 16 | ( left > 1 ? in[ i + 1] << 8 : 0) | ( left > 2 ? in[ i + 2] : 0);
         out[ n++] = table[ v >> 18 & 63];
         out[ n++] = table[ v >> 12 & 63];
         out[ n++] = left > 1 ? table[ v >> 6 & 63] : '=';
         out[ n++] = left > 2 ? table[ v & 63] : '=';
      }
      return n;
   }
   platform::size::type decode( std::string_view source, std::span< std::byte> destination)
   {
      platform::size::type n = 0;
      std::uint32_t v = 0; int bits = 0;
      for( char c : source)
      {
         if( c == '=') break;
         auto at = std::string_view( table).find( c);
         v = v << 6 | at; bits += 6;
         if( bits >= 8) { bits -= 8; destination[ n++] = std::byte( v >> bits & 0xff);}
      }
      return n;
   }
}
namespace casual::common::transcode::base64
{
   platform::binary::type decode( std::string_view value)
   {
      platform::binary::type result( ( value.size() / 4) * 3);
      result.resize( detail::decode( value, result));
      return result;
   }
}

// a program can be made to crash just after it has sent a message of a given type
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/socket.h>
extern "C" ssize_t sendto( int fd, const void* data, size_t size, int flags, const sockaddr* address, socklen_t length)
{
   static auto native = reinterpret_cast< ssize_t(*)( int, const void*, size_t, int, const sockaddr*, socklen_t)>( dlsym( RTLD_NEXT, "sendto"));
   auto result = native( fd, data, size, flags, address, length);
   auto type = std::getenv( "DEMO_CRASH_AFTER"); auto not_me = std::getenv( "DEMO_PID");
   if( result > 0 && type && not_me && std::atoi( not_me) != ::getpid())
   {
      std::uint16_t sent; std::memcpy( &sent, data, 2);
      if( sent && sent == std::atoi( type)) ::kill( ::getpid(), SIGKILL);
   }
   return result;
}
