function C47_argparse ()
  names = {'alpha','beta','gamma','sub','other'} ;
  opts = struct() ;
  for i = 1:3, if rand < .7, opts.(names{i}) = value() ; end, end
  if rand < .7
    opts.sub = struct('x', 1, 'y', value()) ;
    if rand < .4, opts.sub.deep = struct('z', 0) ; end
  end
  if rand < .3, opts.other = struct() ; end
  merge = rand < .25 ; nonrec = rand < .25 ; two = rand < .5 ;
  flags = {} ; if merge, flags{end+1} = vt_pick('merge','Merge') ; end ; if nonrec, flags{end+1} = 'nonrecursive' ; end
  args = {} ; model = opts ; bad = false ; rest = struct() ; order = {} ;
  for k = 1:vt_int(0,5)
    n = vt_pick('alpha','beta','gamma','sub','sub.x','sub.y','sub.deep.z','sub.q','other','unknown','struct') ;
    v = value() ;
    if strcmp(n, 'struct')
      if nonrec, continue ; end
      s = struct() ; a = vt_pick('alpha','beta','unknown2') ; s.(a) = v ;
      if rand < .5, s.gamma = value() ; end
      args{end+1} = s ;
      for f = fieldnames(s)', [model, rest, bad] = apply(model, opts, f{1}, s.(f{1}), merge, nonrec, two, rest, bad) ; end
      continue ;
    end
    if any(strcmp(n, {'sub','other'})), v = vt_pick(struct('x', v), struct('y', v, 'w', 1), v) ; end
    c = n ; if rand < .3, c = upper(n) ; end
    if (two || merge) && (any(n == '.') || ~isfield(opts, n) || isstruct(opts.(n))), c = n ; end
    args(end+(1:2)) = {c, v} ;
    p = strsplit(c, '.') ; n = p{1} ;
    for i = numel(p):-1:2, v = struct(p{i}, {v}) ; end
    [model, rest, bad] = apply(model, opts, n, v, merge, nonrec, two, rest, bad) ;
  end
  vt_desc('vl_argparse(%s, %s, %s) outputs %d', strtrim(disp(opts)), strtrim(disp(args)), disp(flags), 1 + two) ;
  err = false ; left = {} ;
  try
    if two, [got, left] = vl_argparse(opts, args, flags{:}) ; else got = vl_argparse(opts, args, flags{:}) ; end
  catch e
    err = true ; msg = e.message ;
  end
  if err ~= bad
    if err, vt_fail('argparse.error', 'valid arguments are refused: %s', msg) ; else vt_fail('argparse.accepted', 'invalid arguments are accepted') ; end
    return ;
  end
  if bad, vt_count('errors') ; return ; end
  if ~isequal(got, model), vt_fail('argparse', 'options are %s instead of %s', strtrim(disp(got)), strtrim(disp(model))) ; end
  if two
    if merge && ~isempty(left), vt_fail('argparse.merge', 'unmatched parameters %s after merging', disp(left)) ; end
    % what was not matched comes back: parsing it again finds all of it
    [all_, none] = vl_argparse(struct(), left, 'merge') ;
    if ~isequal(all_, rest), vt_fail('argparse.rest', 'passed back %s instead of %s', disp(all_), disp(rest)) ; end
    if ~isempty(fieldnames(rest)), vt_count('passed_back') ; end
  end
  vt_count('parameters', numel(args)) ; if ~isempty(args), vt_seen(disp(opts), disp(args), disp(flags), two) ; end
end

function v = value ()
  v = vt_pick(1, 0, [1 2 3], 'text', {1,2}, [], true, round(rand*100)) ;
  if iscell(v), v = round(rand*9) ; end
end

% one parameter applied to the model; opts are the options originally defined
function [model, rest, bad] = apply (model, opts, name, v, merge, nonrec, two, rest, bad)
  if bad, return ; end
  f = fieldnames(opts)' ; i = find(strcmpi(name, f)) ;
  if isempty(i)
    if merge, model = put(model, name, v, nonrec) ;
    elseif two, rest = put(rest, name, v, false) ;
    else bad = true ; end
    return ;
  end
  name = f{i} ;
  if ~nonrec && isstruct(opts.(name)) && ~isempty(fieldnames(opts.(name)))
    if ~isstruct(v), bad = true ; return ; end
    r = struct() ;
    base = model.(name) ;
    for g = fieldnames(v)'
      [base, r, bad] = apply(base, base, g{1}, v.(g{1}), merge, nonrec, two, r, bad) ;
      if bad, return ; end
    end
    model.(name) = base ;
    if ~isempty(fieldnames(r))
      if isfield(rest, name), rest = put(rest, name, r, false) ;
      else rest.(name) = r ; end
    end
  else
    model = put(model, name, v, nonrec) ;
  end
end

function model = put (model, name, v, direct)
  if ~direct && isstruct(v) && isfield(model, name) && isstruct(model.(name))
    for g = fieldnames(v)', model.(name) = put(model.(name), g{1}, v.(g{1}), false) ; end
  else
    model.(name) = v ;
  end
end
