function C47_interface ()
% the short names of the functions forward to them; set up and global settings
  repo = getenv('VT_REPO') ; if isempty(repo), repo = '/repo' ; end
  old = path() ;
  base = tempname() ; mkdir(base) ;
  unwind_protect
    L = dir(fullfile(repo, 'toolbox', 'noprefix', '*.m')) ;
    n = L(vt_int(1, numel(L))).name(1:end-2) ;
    no = vt_int(0,3) ; ni = vt_int(0,4) ; in = {} ;
    for i = 1:ni, in{i} = vt_pick(rand(2), 'text', {1,'b'}, [], struct('a',1), true) ; end
    vt_desc('%s called with %d arguments for %d results', n, ni, no) ;
    % a recorder in the place of the function
    fid = fopen(fullfile(base, ['vl_' n '.m']), 'w') ;
    fprintf(fid, 'function varargout = vl_%s (varargin)\nglobal VTCALL\nVTCALL = {nargout, varargin} ;\nfor i = 1:nargout, varargout{i} = i * 11 ; end\n', n) ;
    fclose(fid) ;
    copyfile(fullfile(repo, 'toolbox', 'noprefix', [n '.m']), fullfile(base, ['vtshort_' n '.m'])) ;
    global VTCALL
    VTCALL = [] ; out = cell(1,0) ;
    addpath(base) ;
    if ~strcmp(which(['vl_' n]), fullfile(base, ['vl_' n '.m'])), rmpath(base) ; vt_skip() ; end
    f = str2func(['vtshort_' n]) ;
    if no, [out{1:no}] = f(in{:}) ; else f(in{:}) ; end
    rmpath(base) ;
    if isempty(VTCALL), vt_fail('noprefix', '%s does not call vl_%s', n, n) ;
    else
      if VTCALL{1} ~= no || ~isequal(VTCALL{2}, in), vt_fail('noprefix.arguments', 'vl_%s gets %d arguments for %d results', n, numel(VTCALL{2}), VTCALL{1}) ; end
      if ~isequal(out, num2cell((1:no) * 11)), vt_fail('noprefix.results', 'results are lost') ; end
    end
    vt_count('short_names') ;
    if rand < .1
      % set up makes every directory of the toolbox reachable
      s = struct('noprefix', rand < .5, 'xtest', rand < .5, 'demo', rand < .5) ; a = {} ;
      for k = fieldnames(s)', if s.(k{1}), a{end+1} = vt_pick(k{1}, upper(k{1})) ; end, end
      restoredefaultpath() ; addpath(fullfile(repo, 'toolbox')) ;
      evalc('vl_setup(a{:})') ;
      P = strsplit(path(), pathsep()) ;
      bad = vl_root() ;
      miss = '' ;
      D = dir(fullfile(repo, 'toolbox')) ;
      for i = 1:numel(D)
        if ~D(i).isdir || any(D(i).name(1) == '.') || strcmp(D(i).name, 'mex'), continue ; end
        has = any(strcmp(P, fullfile(repo, 'toolbox', D(i).name))) ;
        want = true ; if isfield(s, D(i).name), want = s.(D(i).name) ; end
        if isempty(dir(fullfile(repo, 'toolbox', D(i).name, '*.m'))), continue ; end
        if has ~= want, miss = D(i).name ; end
      end
      path(old) ;
      if ~strcmp(bad, repo), vt_fail('root', 'vl_root is %s', bad) ; end
      if ~isempty(miss), vt_fail('setup', 'after vl_setup(%s) directory %s is wrong', strjoin(a, ','), miss) ; end
      if ~vt_throws(@() vl_setup('nonsense')), vt_fail('setup.option', 'an unknown option is accepted') ; end
      vt_count('setups') ;
    end
  unwind_protect_cleanup
    path(old) ;
    unlink(fullfile(base, ['vl_' n '.m'])) ; unlink(fullfile(base, ['vtshort_' n '.m'])) ; rmdir(base) ;
  end_unwind_protect
  % global settings report the previous value
  on = rand < .5 ; was = vl_simdctrl() ;
  if vl_simdctrl(on) ~= was || vl_simdctrl(was) ~= on || vl_simdctrl() ~= was, vt_fail('simdctrl', 'the setting read is not the setting made') ; end
  t = vl_threads() ; [t2, m] = vl_threads() ; k = vt_int(1, max(1,m)) ; p = vl_threads(k) ; q = vl_threads(t) ;
  if t < 1 || t ~= t2 || p ~= t || m < 1, vt_fail('threads', '%d, then %d of %d threads', t, p, m) ; end
  if m > 1 && q ~= k, vt_fail('threads.set', '%d threads after asking for %d', q, k) ; end
  v = vl_version() ; w = vl_version('verbose') ;
  if isempty(regexp(v, '^\d+\.\d+\.\d+$')) || isempty(strfind(w, v)), vt_fail('version', 'version %s, verbosely %s', v, w) ; end
  vt_seen(n, no, in{cellfun(@ischar, in)}, ni) ;
end
