% Runs the cases of the Octave groups and writes what they observed, with
% the options and the output format of the C++ harnesses (lib/vt_main.cc).
function o = vt_options (argv)
  o = struct('seed',1,'shard',0,'shards',1,'startg',0,'startc',0,'out','','progress','', ...
             'thorough',false,'scale',1,'prop','','group','','kase',-1,'list',false) ;
  i = 1 ;
  while i <= numel(argv)
    switch argv{i}
      case '--seed',     o.seed = str2double(argv{i+1}) ; i = i + 1 ;
      case '--shard',    o.shard = str2double(argv{i+1}) ; o.shards = str2double(argv{i+2}) ; i = i + 2 ;
      case '--start',    o.startg = str2double(argv{i+1}) ; o.startc = str2double(argv{i+2}) ; i = i + 2 ;
      case '--out',      o.out = argv{i+1} ; i = i + 1 ;
      case '--progress', o.progress = argv{i+1} ; i = i + 1 ;
      case '--scale',    o.scale = str2double(argv{i+1}) ; i = i + 1 ;
      case '--prop',     o.prop = argv{i+1} ; i = i + 1 ;
      case '--group',    o.group = argv{i+1} ; i = i + 1 ;
      case '--case',     o.kase = str2double(argv{i+1}) ; i = i + 1 ;
      case '--thorough', o.thorough = true ;
      case '--list',     o.list = true ;
      otherwise, error('unknown option %s', argv{i}) ;
    end
    i = i + 1 ;
  end
end

function vt_progress (f, g, c)
  if f >= 0
    frewind(f) ;
    fwrite(f, int64([g c 0]), 'int64') ;
    fflush(f) ;
  end
end

function s = vt_str (s)
  s = regexprep(s, '[^\x20-\x7e]', ' ') ;
  s = strrep(strrep(s, '\', '\\'), '"', '\"') ;
end

function vt_main ()
  global T
  o = vt_options(argv()) ;
  groups = vt_groups() ;
  if o.list
    for g = 1:size(groups,1), printf('%s %s.%s\n', groups{g,1}, groups{g,1}, groups{g,2}) ; end
    return
  end
  warning('off', 'all') ;
  more off ;
  pf = -1 ;
  if ~isempty(o.progress), pf = fopen(o.progress, 'w') ; end
  T = struct('evals',0,'nontriv',0,'skipped',0,'counters',struct(),'samples',{{}},'viol',{{}}, ...
             'seen',{{}},'group','','kase',0,'d','','hit',false,'noted',{{}}) ;
  for g = 1:size(groups,1)
    name = [groups{g,1} '.' groups{g,2}] ;
    if ~isempty(o.prop) && ~strcmp(o.prop, groups{g,1}), continue ; end
    if ~isempty(o.group) && ~strcmp(o.group, name), continue ; end
    if g - 1 < o.startg, continue ; end
    n = groups{g,3} ;
    if o.thorough, n = groups{g,4} ; end
    n = max(1, round(n * o.scale)) ;
    h = hash('md5', name) ;
    h = hex2dec(h(1:8)) ;
    fn = str2func([groups{g,1} '_' groups{g,2}]) ;
    first = 0 ; if g - 1 == o.startg, first = o.startc ; end
    range = first:n-1 ;
    if o.kase >= 0, range = o.kase ; end
    ns = 0 ;
    for c = range
      if o.kase < 0 && mod(c, o.shards) ~= o.shard, continue ; end
      vt_progress(pf, g-1, c) ;
      st = [mod(o.seed,2^32) h mod(c,2^32)] ;
      rand('twister', st) ; randn('twister', st) ; rande('twister', st) ; randp('twister', st) ; randg('twister', st) ;
      T.group = name ; T.kase = c ; T.d = '' ; T.hit = false ;
      try
        fn() ;
        T.evals = T.evals + 1 ;
      catch e
        if strcmp(e.identifier, 'vt:skip')
          T.skipped = T.skipped + 1 ;
          continue ;
        end
        where = '?' ;
        for s = 1:numel(e.stack)
          if strncmp(e.stack(s).name, 'vl_', 3), where = strtok(e.stack(s).name, '>') ; break ; end
        end
        T.evals = T.evals + 1 ;
        vt_fail(['error@' where], '%s', e.message) ;
        if o.kase >= 0
          for s = 1:numel(e.stack), printf('  at %s:%d\n', e.stack(s).name, e.stack(s).line) ; end
        end
      end
      if T.hit && ns < 2 && ~isempty(T.d)
        T.samples{end+1} = [name ': ' T.d] ; ns = ns + 1 ;
      end
    end
  end
  if o.kase >= 0
    for i = 1:numel(T.viol), v = T.viol{i} ; printf('VIOLATED [%s] %s\n  input: %s\n', v.key, v.msg, v.desc) ; end
    if isempty(T.viol), printf('held on %s case %d: %s\n', o.group, o.kase, T.d) ; end
  end
  if ~isempty(o.out)
    f = fopen([o.out '.tmp'], 'w') ;
    fprintf(f, '{"evaluations":%d,"skipped":%d,"nontrivial":%d,"counters":{', T.evals, T.skipped, T.nontriv) ;
    k = fieldnames(T.counters) ;
    for i = 1:numel(k)
      if i > 1, fputs(f, ',') ; end
      fprintf(f, '"%s":%d', k{i}, T.counters.(k{i})) ;
    end
    fputs(f, '},"samples":[') ;
    for i = 1:numel(T.samples)
      if i > 1, fputs(f, ',') ; end
      fprintf(f, '"%s"', vt_str(T.samples{i})) ;
    end
    fputs(f, '],"violations":[') ;
    for i = 1:numel(T.viol)
      v = T.viol{i} ;
      if i > 1, fputs(f, ',') ; end
      fprintf(f, '{"group":"%s","case":%d,"key":"%s","msg":"%s","desc":"%s"}', v.group, v.kase, vt_str(v.key), vt_str(v.msg), vt_str(v.desc)) ;
    end
    fputs(f, '],"seen":[') ;
    s = unique(T.seen) ;
    for i = 1:numel(s)
      if i > 1, fputs(f, ',') ; end
      fprintf(f, '"%s"', s{i}) ;
    end
    fputs(f, ']}') ;
    fclose(f) ;
    rename([o.out '.tmp'], o.out) ;
  end
end

addpath(fileparts(mfilename('fullpath'))) ;
here = fileparts(mfilename('fullpath')) ;
addpath(fullfile(here, 'lib')) ;
addpath(fullfile(here, 'groups')) ;
repo = getenv('VT_REPO') ; if isempty(repo), repo = '/repo' ; end
for d = {'','aib','fisher','geometry','gmm','imop','kmeans','misc','mser','plotop','quickshift','sift','slic','special','vlad'}
  addpath(fullfile(repo, 'toolbox', d{1})) ;
end
addpath(getenv('VT_MEXDIR')) ;
vt_main() ;
