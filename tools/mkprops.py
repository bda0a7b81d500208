#!/usr/bin/env python3
"""writes /verif/properties.jsonl (edit here, not there)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, id
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

I = 'include/asioext/'
prop('A01', 'A linear buffer is an exact, bounded sequence of bytes',
     'Whatever its current contents, capacity and limit, every operation on a linear buffer (append, insert, erase, resize, reserve, clear, copy, move, views) leaves exactly the bytes its documentation describes, in order, with size <= capacity <= maximum size. An operation that would exceed the maximum size throws length_error, and only then, and leaves the buffer as it was. Operations that fit the capacity never move the storage; a moved-from buffer is empty and owns nothing.',
     ['inputs', 'histories'], 'every buffer state (size, capacity, limit, contents, with or without storage), every position, length and data argument',
     'tests append and resize a few small buffers; insert within the capacity, erase ranges, limits and self-operations are sampled or untested',
     [I + 'linear_buffer.hpp', I + 'impl/linear_buffer.hpp'],
     [('range checks against the limit before any change', I + 'impl/linear_buffer.hpp'), ('growth policy never exceeds the limit', I + 'linear_buffer.hpp calculate_capacity'), ('memmove/memcpy of the shifted ranges', I + 'impl/linear_buffer.hpp insert, erase')],
     [('size_, capacity_, max_size_, data_', 'representation invariant size <= capacity <= max and data_ owns capacity bytes', I + 'linear_buffer.hpp')], ['public members of basic_linear_buffer'])
prop('A02', 'A linear buffer owns its memory exactly once, also when allocation fails',
     'Every byte a linear buffer touches lies in storage it currently owns; every block it obtains from its allocator is returned exactly once, with the size it was requested with and through an allocator equal to the one it came from, whatever sequence of constructions, copies, moves, (self-)assignments and growth happens. If an allocation fails, the operation throws, nothing leaks and the buffer keeps its previous value and storage.',
     ['inputs', 'histories', 'fault_sequences'], 'every buffer state, every operation, every allocator kind (propagating or not, equal or unequal instances), every allocation failing or not',
     'tests only use the default allocator, never fail an allocation and cannot observe leaks or sizes passed to deallocation',
     [I + 'linear_buffer.hpp', I + 'impl/linear_buffer.hpp'],
     [('reallocate(): allocate, copy, release, replace', I + 'impl/linear_buffer.hpp'), ('move_assign() for propagating and non-propagating allocators', I + 'impl/linear_buffer.hpp'), ('destructor', I + 'linear_buffer.hpp')])
prop('A03', 'The dynamic buffer adaptor keeps its input and output sequences apart',
     'For every adapted buffer and limit, preparing n bytes yields exactly n writable bytes directly behind the unchanged input sequence, committing moves exactly the first min(n, prepared) of them to its end, and consuming removes exactly min(n, size) bytes from its front; growing and shrinking change the end by exactly n bytes and the reported size follows. Exceeding the limit throws length_error (or reports no_memory through the error code, which is reset on success) and changes nothing. Every view handed out lies inside the adapted buffer.',
     ['inputs', 'histories'], 'every adapted buffer (size, capacity, limit), every adaptor limit, every pending output sequence, every argument including values near the maximum of size_t; both configurations of the dynamic buffer protocol',
     'tests use the adaptor with one read loop and small literals; argument overflow, mixed protocols and limits are not reached',
     [I + 'linear_buffer.hpp', I + 'impl/linear_buffer.hpp'],
     [('size_ marks the border between input and output sequence', I + 'linear_buffer.hpp dynamic_linear_buffer'), ('limit check in prepare() and grow()', I + 'impl/linear_buffer.hpp')])

FH = [I + 'file_handle.hpp', I + 'unique_file_handle.hpp', I + 'impl/file_handle_posix.cpp', I + 'impl/unique_file_handle.cpp', I + 'detail/impl/posix_file_ops.cpp']
prop('B01', 'Opening asks the system for exactly the documented file',
     'For every combination of open flags, permissions and file name, open() asks the system exactly once (repeating interrupted attempts) for that file with the creation mode, access mode and permissions the documentation gives for those flags, and never lets the descriptor be inherited by child processes. Flags with more than one creation mode, and default constructed arguments, are invalid: is_valid() says so and open() reports an error without asking the system. A successful open yields an owner of the new descriptor, a failed one an empty handle and the system\'s error.',
     ['inputs', 'fault_sequences'], 'all 512 flag combinations, all permissions, arguments set through flags or through native values, every outcome of open(2) including interruptions',
     'tests open a handful of files with a handful of flags, on a system that neither interrupts nor refuses',
     [I + 'open.hpp', I + 'open_args.hpp', I + 'open_flags.hpp', I + 'impl/open.cpp', I + 'impl/open_args.hpp', I + 'impl/open_flags.cpp', I + 'detail/impl/posix_file_ops.cpp'],
     [('flag translation', I + 'impl/open_args.hpp, impl/open_flags.cpp'), ('open(2) with O_CLOEXEC and EINTR loop', I + 'detail/impl/posix_file_ops.cpp')])
prop('B02', 'A transfer moves exactly the reported bytes between buffers and file',
     'read_some, write_some and their _at forms carry out exactly one transfer on the handle\'s descriptor (repeating interrupted calls), at the file position or, for the _at forms, at the given 64-bit offset without touching the position. The count returned is the number of bytes the system moved; exactly those bytes, in order across the buffer sequence, are handed over and no other byte of the buffers changes. A failure reports 0 bytes and the system\'s error, and reading 0 bytes into a non-empty buffer sequence (and only that) is reported as end of file.',
     ['inputs', 'fault_sequences'], 'every buffer sequence (lengths and contents), every offset, every outcome of the system call: interrupted, failed, short, complete',
     'tests transfer short strings on a file system that never interrupts, never fails and never transfers less than asked',
     FH + [I + 'detail/buffer_sequence_adapter.hpp', I + 'detail/posix_file_ops.hpp', I + 'impl/file_handle_posix.hpp'],
     [('iovec adapter', I + 'detail/buffer_sequence_adapter.hpp'), ('readv/writev/preadv/pwritev with EINTR loop', I + 'detail/impl/posix_file_ops.cpp')])
prop('B03', 'File metadata operations act on the file exactly as documented',
     'position, seek, size, truncate, permissions, attributes and duplicate each act on the handle\'s own file, once, with exactly the given offset, origin, size or permission bits, and report exactly what the system reported; asking never changes the file or its position. Permissions are replaced, added or removed as asked, and no other bit changes. The standard stream functions return handles to descriptors 0, 1 and 2.',
     ['inputs', 'fault_sequences'], 'every offset, size, origin and permission set, every state of the file as reported by the system, plain and owning handles',
     'tests use small offsets in small files with default permissions',
     FH + [I + 'file_perms.hpp', I + 'file_attrs.hpp', I + 'duplicate.hpp', I + 'impl/duplicate.cpp', I + 'standard_streams.hpp', I + 'impl/standard_streams.cpp'],
     [('system call wrappers', I + 'detail/impl/posix_file_ops.cpp'), ('origin and permission translation', I + 'detail/impl/posix_file_ops.cpp')])
prop('B04', 'Every file descriptor has exactly one owner and is closed exactly once',
     'A descriptor obtained or adopted by a unique_file_handle is closed exactly once, when its owner is destroyed, closed, reset or assigned to, and never after being released or moved away; this holds for every sequence of these operations and when closing fails. Moved-from, released and closed handles are empty and usable again. A plain file_handle never closes its descriptor except through close().',
     ['histories', 'fault_sequences'], 'every owner (empty, adopted, opened, duplicated), every ownership operation, closing failing or not',
     'tests cannot see a leaked or doubly closed descriptor and closing never fails there',
     FH + [I + 'open.hpp', I + 'impl/open.cpp', I + 'duplicate.hpp', I + 'impl/duplicate.cpp'],
     [('destructor, move, reset, release, close', I + 'unique_file_handle.hpp, impl/unique_file_handle.cpp'), ('close(2) wrapper', I + 'detail/impl/posix_file_ops.cpp')])
prop('B05', 'Both error reporting forms of a file operation agree',
     'Every file operation has a throwing form and an error code form; the former throws a system_error exactly if the latter sets an error, carrying that same error, and both report exactly the error of the failed system call. The error code form clears an error code left over from an earlier call whenever it succeeds, and never throws.',
     ['inputs', 'fault_sequences'], 'every file operation, every errno the system may return, every previous value of the error code',
     'tests hardly ever see a failing system call and always pass fresh error codes',
     FH + [I + 'error_code.hpp', I + 'detail/throw_error.hpp', I + 'detail/error.hpp', I + 'impl/open.cpp', I + 'impl/duplicate.cpp', I + 'impl/standard_streams.cpp'],
     [('throw_error()', I + 'detail/throw_error.hpp'), ('errno translation', I + 'detail/impl/posix_file_ops.cpp')])
prop('C01', 'File times convert exactly or are refused',
     'Converting between the system\'s (seconds, fraction) pairs and the library\'s time points and durations is exact, for times before and after the epoch alike: composing a decomposed time gives it back, the fraction is always within [0, one second), and a value the target type cannot hold is refused instead of wrapping around. Reading a file\'s times and setting them is exact to the nanosecond; a zero time leaves the file\'s time unchanged.',
     ['inputs'], 'every 64-bit and 32-bit tick count, every seconds/fraction pair, every pair of periods instantiated, every time reported by the system',
     'tests convert a few present-day times, which never come near a limit and lie after 1970',
     [I + 'detail/chrono.hpp', I + 'detail/impl/chrono.hpp', I + 'chrono.hpp', I + 'impl/chrono.cpp', I + 'detail/impl/posix_file_ops.cpp'],
     [('safe_duration_cast overflow checks', I + 'detail/chrono.hpp'), ('compose_time/decompose_time', I + 'detail/impl/chrono.hpp')])

SK = [I + 'socks/client.hpp', I + 'socks/impl/client.hpp', I + 'socks/detail/client.hpp', I + 'socks/detail/protocol.hpp', I + 'socks/detail/impl/protocol.cpp']
prop('E01', 'SOCKS requests are exactly the frames the protocols prescribe',
     'For all arguments, async_greet, async_login and async_execute send exactly one request whose every byte is the one SOCKS4a, RFC 1928 or RFC 1929 prescribes for them: version, command, port and address in network byte order, length-prefixed or NUL-terminated user names, passwords and host names, method lists. Arguments the protocol cannot express (more than 255 characters or methods in SOCKS5, an IPv6 address in SOCKS4) send nothing and complete with invalid_argument, and the handler is never called from within the initiating function. Host names are taken to be non-empty.',
     ['inputs'], 'all commands, IPv4 and IPv6 endpoints, ports, user names, passwords and host names of any length and content, method lists of any length',
     'the SOCKS client has no tests; its frames depend on argument lengths and contents',
     SK, [('packet encoders', I + 'socks/detail/impl/protocol.cpp'), ('operations', I + 'socks/detail/client.hpp')])
prop('E02', 'A SOCKS operation succeeds exactly if the server granted it',
     'For every reply, async_greet, async_login and async_execute report success if and only if the reply has the right version and a granting status, the error that belongs to the status otherwise, and a transport error unchanged. They read exactly the bytes of the reply, whatever its length, so that the first byte after it is the first byte of the proxied connection, leave the buffer empty, and call the handler exactly once.',
     ['inputs', 'fault_sequences'], 'all reply bytes, all address types and name lengths, a transport error at every step',
     'the SOCKS client has no tests; replies come from a peer nobody controls',
     SK + [I + 'socks/error.hpp', I + 'compose.hpp'], [('reply decoding', I + 'socks/detail/client.hpp')])

prop('D01', 'A URL is split into its components without losing or inventing characters',
     'For every string, url_view either refuses it (the error is reported or thrown, the view is invalid and has no components) or splits it into scheme, user information, host, port, path, query and fragment: views of the string, in this order, separated by exactly their delimiters, that together account for all of it and each consist only of characters allowed there. An accepted port has at most five digits and port_value() is its value; without a port, port() and port_value() are the default of http, https and ftp. A string made of the characters allowed in each component is accepted: scheme://[user@]host[:port], with a path, a query, and behind one of these a fragment; scheme:path; or a path alone. No character outside the given string is read.',
     ['inputs'], 'every string of any length; both constructors, any previous value of the error code',
     'url_view has no tests, and the parser is a state machine over arbitrary strings',
     [I + 'url_view.hpp', I + 'impl/url_view.cpp', I + 'detail/url_parser.hpp', I + 'detail/impl/url_parser.cpp', I + 'error.hpp'],
     [('state machine over the characters', I + 'detail/impl/url_parser.cpp get_state_for, parse_url'), ('authority: user information, host, port', I + 'detail/impl/url_parser.cpp parse_authority'), ('default ports', I + 'impl/url_view.cpp')])

prop('E03', 'Connecting by name tries every endpoint in order and reports the truth',
     'connect and async_connect ask the resolver exactly once, for exactly the given host, service and flags, and then try the endpoints it found in order, each with the socket closed first, until one connection is established: that is where they stop and what they report. Otherwise they report the error of the resolver, without touching the socket, or of the last attempt, or asio::error::not_found if the name has no endpoints; both error forms agree. The asynchronous form uses the names only while it is being initiated, invokes its handler exactly once and never from within the initiating call, and passes on the endpoint connected to.',
     ['inputs', 'fault_sequences', 'histories'], 'every name and flag, any number of endpoints of either address family, sockets open or connected before, every sequence of failing closes, opens and connects, abandoned operations',
     'connecting has no tests at all',
     [I + 'connect.hpp', I + 'impl/connect.cpp'],
     [('close, connect until success', I + 'impl/connect.cpp'), ('connect_op', I + 'connect.hpp')])
prop('F01', 'A unique_handler runs its handler at most once and manages it safely',
     'Completing a unique_handler invokes its handler exactly once, with exactly the given arguments, and leaves it empty; destroying, resetting, moving from or assigning over it never invokes a handler, and completing an empty one throws bad_function_call. The handler is destroyed exactly once; its storage comes from and returns to its associated allocator exactly once, and before the handler is invoked. All of this also holds if an allocation fails or the handler, while it runs or is destroyed, uses the unique_handler again.',
     ['inputs', 'histories', 'fault_sequences'], 'every state (empty, holding a small or large handler), every operation, every argument, every allocation failing or not, every reentrant use from the handler',
     'tests construct, move and complete one handler; they never reset, assign, fail an allocation or reenter',
     [I + 'unique_handler.hpp', I + 'associated_allocator.hpp', I + 'impl/unique_handler.cpp'],
     [('storage_impl: type-erased abort and complete', I + 'unique_handler.hpp'), ('ownership handed over before user code runs', I + 'unique_handler.hpp complete(), reset(), operator=')])
prop('F02', 'A cancellation token reports exactly the cancellations of its source',
     'A cancellation token is cancelled exactly if its source was cancelled or destroyed after the token was issued, or was already destroyed then; cancellation is final, copies of a token agree with it, sources do not affect each other and tokens outlive them. cancel() leaves later tokens of a source in use unaffected, destroy() cancels them from the start until reset(), which itself cancels nothing. Moving a source moves its tokens and leaves a destroyed source behind.',
     ['histories'], 'every state of source and tokens (in use or destroyed, cancelled or not), every sequence of operations, copies and moves',
     'cancellation tokens have no tests of their own, only one asynchronous read that is cancelled',
     [I + 'cancellation_token.hpp', I + 'impl/cancellation_token.cpp'],
     [('source owns, tokens observe a shared owner count', I + 'impl/cancellation_token.cpp')])
prop('F03', 'The file service owns each open file once, moves it whole and lets go of it',
     'The file service lists exactly the files constructed or moved into it and not yet destroyed, changing the list only under its lock; a descriptor opened by or assigned to a file is closed exactly once, by close(), destruction, replacement in a move assignment or shutdown, and opening or assigning to an open file is refused without effect. Moving a file hands over its descriptor and its operations in progress and leaves a closed, usable file behind. cancel(), close(), destruction, replacement and shutdown cancel the operations issued so far and no later ones; shutdown also waits for running operations and destroys queued handlers, without holding the lock.',
     ['inputs', 'histories', 'schedules'], 'every list of other files, changed by other threads whenever the lock is free; every file, open or not, with operations in progress; one or two services; every outcome of the system calls including a failing close',
     'tests use one or two files on one service, never move a file, never see closing fail and destroy their io_context only when nothing is queued',
     [I + 'thread_pool_file_service.hpp', I + 'impl/thread_pool_file_service.cpp', I + 'cancellation_token.hpp'],
     [('intrusive list of implementations under a mutex', I + 'impl/thread_pool_file_service.cpp construct, move_construct, move_assign, destroy'), ('close_for_destruction, shutdown_service', I + 'impl/thread_pool_file_service.cpp')])
prop('F04', 'Composed operations and bound handlers call the handler once and keep its work',
     'A composed operation passes every invocation on to its implementation with exactly the given arguments; completing it, directly or through a bound handler that runs later, invokes the user\'s handler exactly once with exactly the given values. Work on every executor involved is outstanding from construction until the handler has returned, survives moves, and is released exactly once, also if the operation is abandoned. The wrapped handler\'s allocator and executor are those of the wrapper, and an operation is a continuation exactly from its second step on or if its handler is one.',
     ['inputs', 'histories'], 'every handler association, every argument value, any number of intermediate steps, completed, bound or abandoned operations, moved or not',
     'tests run one composed operation on an io_context that has other work; released work, bound handlers and abandoned operations are not observable there',
     [I + 'compose.hpp', I + 'bind_handler.hpp', I + 'detail/bound_handler.hpp', I + 'work.hpp', I + 'associated_allocator.hpp'],
     [('composed_operation', I + 'compose.hpp'), ('bound_handler', I + 'detail/bound_handler.hpp'), ('work_tuple', I + 'work.hpp')])
prop('F05', 'An asynchronous file operation runs once and reports its own outcome once',
     'Initiating an asynchronous read or write only queues it: the thread pool later carries out exactly one transfer, on the file it was started on, with the given buffers and at the given offset (or the file position), or none at all if the file was cancelled, closed, replaced or destroyed before. The handler is then invoked exactly once, through its own executor (the io_context if it has none) and never inside the initiating function or on the pool, with exactly the outcome of that transfer, or operation_aborted and 0 bytes; an abandoned operation invokes nothing. Work on that executor is outstanding from initiation until the handler has returned, and a handler passed as an lvalue is left intact.',
     ['inputs', 'histories', 'fault_sequences'], 'every buffer sequence, offset and outcome of the system call, every handler with or without an executor, everything that may happen to the file while the operation is queued, abandoned operations',
     'tests start a few operations that succeed, one at a time, and cancel one; a file that changes while its operations are queued is not tested',
     [I + 'impl/thread_pool_file_service.hpp', I + 'thread_pool_file_service.hpp', I + 'basic_file.hpp', I + 'compose.hpp', I + 'detail/bound_handler.hpp', I + 'cancellation_token.hpp'],
     [('thread_pool_fs_init, thread_pool_fs_op', I + 'impl/thread_pool_file_service.hpp'), ('cancellation token taken at initiation', I + 'impl/thread_pool_file_service.hpp')])
prop('F06', 'basic_file is one owned file, used exactly like the other file classes',
     'A basic_file adopts or opens at most one descriptor, is known to the service of its io_context from construction to destruction, and its synchronous operations do to that file, and report through both error forms, exactly what the same operations of a plain file handle do. Move construction and assignment hand over descriptor, service and executor, close what they replace exactly once and leave a file that can be opened again; assigning a file to itself has no effect. A constructor that fails leaves no file behind.',
     ['inputs', 'histories', 'fault_sequences'], 'every constructor, every operation with every argument, every outcome of the system calls, files open or closed, on the same or different io_contexts',
     'tests call a few members on small files, do not use most constructors and never move a basic_file',
     [I + 'basic_file.hpp', I + 'io_object_holder.hpp', I + 'thread_pool_file_service.hpp', I + 'impl/thread_pool_file_service.hpp', I + 'impl/thread_pool_file_service.cpp'],
     [('forwarding to the service', I + 'basic_file.hpp'), ('service, implementation and executor travel together', I + 'io_object_holder.hpp')])
prop('G01', 'Reading and writing whole files transfers exactly their contents',
     'read_file succeeds only if the container has been filled with exactly the contents of the file (or the given buffers with its beginning), and write_file only if the file, created or overwritten, holds exactly the given bytes, however the system splits the transfers. A file the container cannot hold, one that ends early and every failing system call are reported as such, through both error forms, and a file opened by name is closed again in every case.',
     ['inputs', 'fault_sequences'], 'every file length and contents (growing or shrinking meanwhile), every container size, limit and failure to resize, every sequence of short, interrupted and failing system calls',
     'tests read and write short strings on a file system that never transfers less than asked and never fails',
     [I + 'read_file.hpp', I + 'impl/read_file.hpp', I + 'write_file.hpp', I + 'impl/write_file.hpp', I + 'unique_file_handle.hpp', I + 'file_handle.hpp'],
     [('size check, resize, asio::read until full', I + 'impl/read_file.hpp'), ('create_always, asio::write until done', I + 'impl/write_file.hpp')])
prop('H01', 'A buffered stream writes everything once and in order, and adds what it reads',
     'What is put into the write buffer of a buffered_stream reaches the next layer exactly once and in the order it was buffered, across failed and partial flushes: flush and async_flush pass on what an earlier flush left behind, or else everything buffered when they start; data buffered meanwhile is kept for the next one. A flush started while another is pending is refused with already_started, without effect; a flush that is over, also a failed one, is not pending. fill and async_fill append exactly the bytes read, ending as soon as something has been read, to what the read buffer holds. The error and the number of bytes reported are those of the transfer, also if the error code passed in was set before; asynchronous handlers are called exactly once and never within the initiating call. Closing drops everything buffered, also if it fails. A new stream has empty buffers, which keep to the limits given.',
     ['inputs', 'histories', 'fault_sequences'], 'every contents of the buffers, every transfer that fails at any point, data buffered and flushes started while one is pending',
     'buffered_stream has no tests, and could not even be compiled with standalone asio',
     [I + 'experimental/buffered_stream.hpp', I + 'linear_buffer.hpp', I + 'compose.hpp', I + 'bind_handler.hpp'],
     [('lock_write_buffers, unlock_write_buffers', I + 'experimental/buffered_stream.hpp'), ('flush, async_flush, fill, async_fill', I + 'experimental/buffered_stream.hpp')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
