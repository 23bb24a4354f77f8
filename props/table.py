LOG = ['src/record.cpp', 'src/attribute.cpp', 'src/scope/manager.cpp', 'src/scope/watcher.cpp', 'src/logger.cpp', 'src/handler.cpp', 'src/root.cpp']
CFG = ['src/config/option.cpp', 'src/config/node.cpp']
PROPS = {
    'C01': dict(harness=['C01.cpp'], srcs={'C01.cpp': LOG}),
    'C02': dict(harness=['C02.cpp'], srcs={'C02.cpp': LOG + ['src/wrapper.cpp', 'src/scope/holder.cpp']}),
    'C03': dict(harness=['C03.cpp'], srcs={'C03.cpp': ['src/attribute.cpp']}),
    'C04': dict(harness=['C04.cpp'], srcs={'C04.cpp': ['src/attribute.cpp', 'src/record.cpp']}),
    'C05': dict(harness=['C05.cpp'], srcs={'C05.cpp': ['src/sink/asynchronous.cpp', 'src/record.cpp', 'src/attribute.cpp'] + CFG},
                defs=('-include', 'vf_queue.hpp'), rtdefs=('-include', 'vf_queue.hpp'),
                assumptions=['contract of cds::container::VyukovMPSCCycleQueue (rt/vf_queue.hpp): a bounded multi-producer queue whose successful enqueue runs the given '
                             'functor once on raw memory of one slot, which one later dequeue hands to its functor, in order per producer; the queue code itself is not verified',
                             'std::thread start and join, and condition variables with spurious wake-ups, behave as the standard says; every other thread acts between any '
                             'two steps of the consumer only as the rely condition in props/C05.cpp allows']),
    'C06': dict(harness=['C06.cpp'], srcs={'C06.cpp': ['src/formatter/tskv.cpp', 'src/formatter/string/token.cpp', 'src/datetime/generator.linux.cpp', 'src/record.cpp', 'src/attribute.cpp', 'src/formatter/mod.cpp', '/verif/rt/lib_tree.cpp'] + CFG}),
    'C07': dict(harness=['C07.cpp'], srcs={'C07.cpp': ['src/formatter/json.cpp', 'src/datetime/generator.linux.cpp', 'src/record.cpp', 'src/attribute.cpp', 'src/formatter/mod.cpp', '/verif/rt/lib_hash.cpp', '/verif/rt/lib_tree.cpp'] + CFG},
                defs=('-DRAPIDJSON_48BITPOINTER_OPTIMIZATION=0',),
                contracts={r'rapidjson::GenericPointer<.*>::GetWithDefault\(rapidjson::GenericValue<[^&]*&, rapidjson::GenericValue<[^&]* const&': 'vf_contract_get',
                           r'rapidjson::GenericValue<.*>::AddMember\(rapidjson::GenericValue<[^&]*>&, rapidjson::GenericValue<[^&]*>&, ': 'vf_contract_add',
                           r'rapidjson::GenericValue<.*>::SetStringRaw\(rapidjson::GenericStringRef<char>, ': 'vf_contract_copy',
                           r'rapidjson::GenericValue<.*>::MemberBegin\(\) const': 'vf_contract_begin',
                           r'std::set<.*string_view.*>::set\(\)': 'vf_contract_set',
                           r'std::set<.*string_view.*>::~set\(\)': 'vf_contract_unset',
                           r'std::set<.*string_view.*>::insert\(.*string_view.* const&\)': 'vf_contract_insert'},
                assumptions=['contract of rapidjson (props/C07.cpp): Pointer::GetWithDefault gives the node at its path, AddMember appends one member, a value made with an allocator '
                             'copies its text, Writer writes the tree as JSON; the native cross-check runs the real rapidjson and reads the text back',
                             'contract of std::set<string_view>::insert: its result says whether no equal element was inserted before']),
    'C08': dict(harness=['C08.cpp'], srcs={'C08.cpp': ['src/formatter/string.cpp', 'src/formatter/string/token.cpp', 'src/formatter/string/parser.cpp', 'src/formatter/string/error.cpp', 'src/procname.cpp', 'src/datetime/generator.linux.cpp', 'src/record.cpp', 'src/attribute.cpp', 'src/formatter/mod.cpp', '/verif/rt/lib_hash.cpp'] + CFG},
                contracts={r'blackhole::(v1::)?gmtime\(': 'vf_contract_gmtime'}),
    'C10': dict(harness=['C10.cpp'], srcs={}),
    'C11': dict(harness=['C11.cpp'], srcs={'C11.cpp': ['src/datetime/generator.linux.cpp']}),
    'C12': dict(harness=['C12.cpp'], srcs={'C12.cpp': ['src/sink/file.cpp', 'src/record.cpp', 'src/attribute.cpp', '/verif/rt/lib_tree.cpp', '/verif/rt/lib_hash.cpp'] + CFG}),
    'C13': dict(harness=['C13.cpp'], srcs={'C13.cpp': ['src/sink/file.cpp', 'src/record.cpp', 'src/attribute.cpp', '/verif/rt/lib_tree.cpp'] + CFG}),
    'C14': dict(harness=['C14.cpp'], srcs={'C14.cpp': ['src/sink/console.cpp', 'src/termcolor.cpp', 'src/record.cpp', 'src/attribute.cpp'] + CFG}),
    'C15': dict(harness=['C15.cpp'], srcs={'C15.cpp': ['src/sink/syslog.cpp', 'src/procname.cpp', 'src/record.cpp', 'src/attribute.cpp'] + CFG}),
    'C16': dict(harness=['C16.cpp'], srcs={'C16.cpp': ['src/record.cpp', 'src/attribute.cpp', 'src/filter/severity.cpp'] + CFG}),
    'C21': dict(harness=['C21.cpp'], srcs={'C21.cpp': ['src/handler/blocking.cpp', 'src/record.cpp', 'src/attribute.cpp', 'src/formatter/mod.cpp', 'src/handler.cpp'] + CFG}),
}
PROPS['C17'] = dict(harness=['C17.cpp'], srcs={'C17.cpp': ['src/config/json.cpp', 'src/config/factory.cpp'] + CFG}, defs=('-DRAPIDJSON_48BITPOINTER_OPTIMIZATION=0',))
PROPS['C18'] = dict(harness=['C18.cpp'], srcs={'C18.cpp': LOG + ['src/formatter/mod.cpp', 'src/registry.cpp', 'src/essentials.cpp', 'src/config/factory.cpp', 'src/filter/severity.cpp', 'src/formatter/json.cpp', 'src/formatter/string.cpp', 'src/formatter/tskv.cpp', 'src/sink/asynchronous.cpp', 'src/sink/console.cpp', 'src/sink/file.cpp', 'src/sink/null.cpp', 'src/sink/socket/tcp.cpp', 'src/sink/socket/udp.cpp', 'src/sink/syslog.cpp', 'src/handler/blocking.cpp', '/verif/rt/lib_tree.cpp'] + CFG})
PROPS['C22'] = dict(harness=['C22.cpp'], srcs={'C22.cpp': LOG})
PROPS['C23'] = dict(harness=['C23.cpp'], srcs={'C23.cpp': LOG},
                    contracts={r'pthread_(spin|mutex)_lock$|__gthread_mutex_lock\(': 'vf_contract_lock'},
                    assumptions=['interference of threads: the other operation runs whole, at one point of the first one (before any lock is taken, or in the filter, the handlers and the lazy text)'])
PROPS['C24'] = dict(harness=['C24.cpp'], srcs={'C24.cpp': ['src/sink/socket/tcp.cpp', 'src/sink/socket/udp.cpp', 'src/record.cpp', 'src/attribute.cpp'] + CFG},
                    defs=('-I/verif/rt/asio',), rtdefs=('-I/verif/rt/asio',),
                    assumptions=['contract of boost.asio (rt/asio/vf_net.hpp): resolving, connecting and sending answer anything their documentation allows; write() sends the whole buffer or reports an '
                                 'error, write_some() a part of it; a datagram is sent whole or not at all; the code of boost.asio and the network are not verified'])
PROPS['C25'] = dict(harness=['C25.cpp'], srcs={'C25.cpp': ['src/handler/dev.cpp', 'src/handler.cpp', 'src/termcolor.cpp', 'src/datetime/generator.linux.cpp', 'src/record.cpp', 'src/attribute.cpp'] + CFG})
PROPS['C19'] = dict(harness=['C19.cpp'], srcs={}, contracts={r'(memcmp|bcmp)$|std::char_traits<char>::compare\(': 'vf_contract_memcmp!', r'^strncmp$': 'vf_contract_strncmp'})
