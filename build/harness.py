"""The harnesses: name -> how to build.

exe: the casual program whose objects and libraries are used, main is renamed to sut_main (objcopy)
like: take include paths from this source of casual
wrap: symbols that are wrapped at link time (to get hold of the program's state)"""

VK = ["vk.cpp", "vkc.cpp"]

HARNESSES = {
    "service_manager": dict(
        exe="casual-service-manager",
        sources=["service_manager.cpp"] + VK,
        wrap=["_ZN6casual7service7manager6handle6createERNS1_5StateE"]),
    "queue_group": dict(
        exe="casual-queue-group",
        sources=["queue_group.cpp", "vkfs.cpp"] + VK,
        system=["sqlite3"],
        wrap=["_ZN6casual5queue5group8handlersERNS1_5StateE"]),
    "queue_forward": dict(
        exe="casual-queue-forward-group",
        sources=["queue_forward.cpp"] + VK,
        wrap=["_ZN6casual5queue7forward8handlersERNS1_5StateE"]),
    "transaction_manager": dict(
        exe="casual-transaction-manager",
        sources=["transaction_manager.cpp", "vkfs.cpp"] + VK,
        system=["sqlite3"],
        wrap=["_ZN6casual11transaction7manager6handle8handlersERNS1_5StateE"]),
    "communication": dict(
        like="middleware/common/source/communication/ipc.cpp",
        libs=["casual-common", "casual-configuration"],
        includes=["configuration/include", "xatmi/include"],
        sources=["communication.cpp"] + VK),
    "buffers": dict(
        like="middleware/buffer/source/field.cpp",
        libs=["casual-buffer", "casual-xatmi", "casual-common", "casual-configuration"],
        includes=["configuration/include", "xatmi/include"],
        sources=["buffers.cpp"] + VK),
    "serialize": dict(
        like="middleware/common/source/serialize/json.cpp",
        libs=["casual-common", "casual-configuration"],
        includes=["configuration/include", "xatmi/include"],
        sources=["serialize.cpp"] + VK),
    "gateway_outbound": dict(
        exe="casual-gateway-outbound-group",
        sources=["gateway_outbound.cpp"] + VK,
        wrap=["_ZN6casual7gateway5group8outbound6handle8externalERNS2_5StateE"]),
    "gateway_inbound": dict(
        exe="casual-gateway-inbound-group",
        sources=["gateway_inbound.cpp"] + VK,
        wrap=["_ZN6casual7gateway5group7inbound6handle8externalERNS2_5StateE"]),
    "protocol": dict(
        exe="casual-gateway-group-tcp-logical-connect",
        sources=["protocol.cpp"] + VK),
    "calls": dict(
        like="middleware/xatmi/source/xatmi.cpp",
        libs=["casual-xatmi", "casual-common", "casual-configuration"],
        includes=["configuration/include", "xatmi/include"],
        sources=["calls.cpp"] + VK),
    "server": dict(
        like="middleware/xatmi/source/xatmi.cpp",
        libs=["casual-xatmi", "casual-common", "casual-configuration"],
        includes=["configuration/include", "xatmi/include"],
        sources=["server.cpp"] + VK),
}
