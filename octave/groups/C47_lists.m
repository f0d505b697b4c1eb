function C47_lists ()
  % strings with numbers in them
  n = vt_int(0,8) ; s = cell(1,n) ;
  for i = 1:n
    t = '' ;
    for k = 1:vt_int(0,3)
      if rand < .5 && (isempty(t) || ~isstrprop(t(end), 'digit')), t = [t sprintf('%d', floor(10^(rand*vt_pick(2,5,9,15))))] ; else t = [t vt_pick('a','b','A','B',' ','x-','img_')] ; end
    end
    s{i} = t ;
  end
  if rand < .2, s = s' ; end
  vt_desc('vl_alphanum(%s)', strtrim(disp(s))) ;
  if n
    [o, perm] = vl_alphanum(s) ;
    if ~isequal(sort(perm(:))', 1:n), vt_fail('alphanum.perm', 'not a permutation: %s', mat2str(perm)) ; return ; end
    if ~isequal(o(:), s(perm)(:)), vt_fail('alphanum.strings', 'strings are not those of the permutation') ; end
    for i = 1:n-1
      if before(o{i+1}, o{i}), vt_fail('alphanum', '''%s'' comes before ''%s''', o{i}, o{i+1}) ; end
    end
  end
  % columns
  m = vt_int(1,9) ; X = round(randn(vt_int(1,3), m)*2) ;
  q = vt_pick(0, vt_int(0,m), m+2, inf, rand, .5) ;
  modes = {'','random','beginning','ending','uniform','largest','smallest'} ; mode = modes{vt_int(1,7)} ;
  if rand < .2, mode = upper(mode) ; end
  if isempty(mode), [Y, sel] = vl_colsubset(X, q) ; else [Y, sel] = vl_colsubset(X, q, mode) ; end
  k = q ; if q ~= round(q), k = round(q*m) ; end ; k = min(k, m) ;
  sel = sel(:)' ;
  if numel(sel) ~= k || any(diff(sel) <= 0) || any(sel < 1 | sel > m)
    vt_fail('colsubset.indexes', '%s of %d columns, %g %s', mat2str(sel), m, q, mode) ; return ;
  end
  if ~isequal(Y, X(:,sel)), vt_fail('colsubset.columns', 'not the columns selected') ; end
  rest = setdiff(1:m, sel) ;
  switch lower(mode)
    case 'beginning', if ~isequal(sel, 1:k), vt_fail('colsubset.beginning', '%s', mat2str(sel)) ; end
    case 'ending', if ~isequal(sel, m-k+1:m), vt_fail('colsubset.ending', '%s', mat2str(sel)) ; end
    case {'largest','smallest'}
      for i = sel
        for j = rest
          c = lex(X(:,i), X(:,j)) ;
          if (strcmpi(mode,'largest') && c < 0) || (strcmpi(mode,'smallest') && c > 0), vt_fail(['colsubset.' lower(mode)], 'column %d left out for %d', j, i) ; end
        end
      end
    case 'uniform'
      if k > 1
        g = diff(sel) ;
        if sel(1) ~= 1 || sel(end) ~= m || max(g) - min(g) > 1 + 1e-9, vt_fail('colsubset.uniform', '%s of %d', mat2str(sel), m) ; end
      end
  end
  if ~vt_throws(@() vl_colsubset(X, -1)) || ~vt_throws(@() vl_colsubset(X, 1, 'nonsense')), vt_fail('colsubset.error', 'invalid arguments are accepted') ; end
  vt_count('strings', n) ; vt_count('columns', m) ; vt_seen(strjoin(s(:)', '|'), X, q, mode) ;
end

function b = before (x, y)
% x sorts before y: character by character, runs of digits by value
  b = false ;
  while ~isempty(x) && ~isempty(y)
    dx = isstrprop(x(1),'digit') ; dy = isstrprop(y(1),'digit') ;
    if dx && dy
      i = regexp(x, '^\d+', 'match'){1} ; j = regexp(y, '^\d+', 'match'){1} ;
      u = str2double(i) ; v = str2double(j) ;
      if u ~= v, b = u < v ; return ; end
      x = x(numel(i)+1:end) ; y = y(numel(j)+1:end) ;
    elseif dx ~= dy
      % a number against a letter: by the first character, numbers padded with zeros
      cx = x(1) ; cy = y(1) ; if dx, cx = '0' ; end ; if dy, cy = '0' ; end
      b = cx < cy ; return ;
    else
      if x(1) ~= y(1), b = x(1) < y(1) ; return ; end
      x = x(2:end) ; y = y(2:end) ;
    end
  end
  b = isempty(x) && ~isempty(y) ;
end

function c = lex (x, y)
  c = 0 ;
  for i = 1:numel(x)
    if x(i) ~= y(i), c = sign(x(i) - y(i)) ; return ; end
  end
end
