c('C11', 'monitoring of generated links of archive graphs: uniquely tagged members are counted in '
  'each output against a model of the selection rule; GNU ld confirms the model', RW + TRUST)
c('C15', 'repeated and simultaneous runs of generated links in differing processes, environments, '
  'directories and output locations; statuses and bytes compared',
  RW + 'Differences that show rarely may be missed.')
c('C12', 'metamorphic monitoring: links with generated scripts must give the bytes of the plain '
  'command line; texts that are no scripts and circles of scripts must be refused', RW)
c('C13', 'monitoring of generated search paths and option orders: outputs tell which files and '
  'settings took effect; wrong command lines must be refused', RW + TRUST)
c('C16', 'fault injection: an LD_PRELOAD shim fails, shortens or kills at every file operation of '
  'links, with file-size limits and odd output paths; the file tree is compared before and after',
  RW + 'Faults are those of the C library calls the linker makes; power loss is not modelled.')
c('C14', 'fault injection into inputs: definite mistakes in objects, archives and libraries must be '
  'refused; random damage must neither crash nor hang the linker, under CPU and memory limits',
  RW + 'A panic that ends the linker with a message and status 101 counts as a refusal.')
c('C01', 'differential monitoring: generated programs of C and assembly units, and programs for '
  'single features, run after a link by dld and after one by GNU ld; outputs and statuses compared',
  RW + TRUST + ' Programs without thread-local storage or indirect functions of their own.')
c('C10', 'monitoring of generated links and programs: dynamic symbols, slots and copies are decoded; '
  'programs with hundreds of imports check themselves under lazy and eager binding; generated '
  'programs are compared with GNU ld\'s', RW + TRUST)
c('C17', 'trace monitoring: programs whose constructors, destructors, fragments and atexit functions '
  'write a trace, checked against a model that GNU ld confirms; arrays and fragments of generated '
  'links decoded', RW + TRUST)
c('C18', 'monitoring of generated links: bytes, order, alignment and references of unloaded sections '
  'are checked; lines, entries and frames that debugging tools find in generated programs are '
  'compared with those of the link by GNU ld', RW + TRUST +
  ' The debugging tools are trusted to be right about the reference.')
c('C19', 'trace monitoring: generated C++, C and assembly programs that throw, catch, clean up and take '
  'backtraces across objects, archives, libraries and threads run after a link by dld and after one by '
  'GNU ld; traces and decoded unwinding records compared', RW + TRUST)
